SPECIFICATION Spec
CONSTANTS MaxRank = 3
          MaxLab = 3
          Emit = FALSE
INVARIANTS Sound Complete
CHECK_DEADLOCK FALSE
