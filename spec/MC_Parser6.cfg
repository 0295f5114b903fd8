SPECIFICATION Spec
CONSTANTS MaxTok = 6
          MaxRank = 2
          Emit = FALSE
INVARIANTS ImplicitIsExplicit SpaceFree Complete Renames
CHECK_DEADLOCK FALSE
