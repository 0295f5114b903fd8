SPECIFICATION Spec
CONSTANTS NTerms = 3
          Labels = {1, 2, 3}
          MaxRank = 3
          Sizes = {2, 3}
          Fns = {1, 3}
INVARIANTS NoPairAtSwitch ObeysRules
CHECK_DEADLOCK FALSE
