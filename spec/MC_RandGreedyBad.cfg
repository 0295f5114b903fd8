SPECIFICATION Spec
CONSTANTS NTerms = 4
          Labels = {1, 2, 3, 4}
          MaxRank = 2
          Sizes = {2}
          NB = 2
          PutBack = FALSE
INVARIANTS NoPairAtSwitch ObeysRules
CHECK_DEADLOCK FALSE
