SPECIFICATION Spec
CONSTANTS MaxTok = 4
          MaxRank = 2
          Emit = FALSE
INVARIANTS ImplicitIsExplicit SpaceFree Complete Renames
CHECK_DEADLOCK FALSE
