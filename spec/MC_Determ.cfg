SPECIFICATION Spec
CONSTANTS NTerms = 2
          MaxRank = 2
          Labels = {1, 2, 3}
INVARIANT Exact
CHECK_DEADLOCK FALSE
