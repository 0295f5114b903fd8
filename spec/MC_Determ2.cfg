SPECIFICATION Spec
CONSTANTS NTerms = 2
          MaxRank = 2
          Labels = {1, 2}
INVARIANT Exact
CHECK_DEADLOCK FALSE
