SPECIFICATION Spec
CONSTANTS MaxTok = 5
          MaxRank = 2
          Emit = TRUE
INVARIANTS EmitAll Complete
CHECK_DEADLOCK FALSE
