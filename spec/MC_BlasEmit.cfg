SPECIFICATION Spec
CONSTANTS MaxRank = 3
          MaxLab = 3
          Emit = TRUE
INVARIANT EmitAll
CHECK_DEADLOCK FALSE
