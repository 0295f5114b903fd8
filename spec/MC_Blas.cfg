SPECIFICATION Spec
CONSTANTS MaxRank = 2
          MaxLab = 3
          Emit = FALSE
INVARIANTS Sound Complete
CHECK_DEADLOCK FALSE
