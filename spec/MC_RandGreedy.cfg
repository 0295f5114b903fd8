SPECIFICATION Spec
CONSTANTS NTerms = 3
          Labels = {1, 2, 3}
          MaxRank = 3
          Sizes = {2, 3}
          NB = 2
          PutBack = TRUE
INVARIANTS NoPairAtSwitch ObeysRules
CHECK_DEADLOCK FALSE
