SPECIFICATION Spec
CONSTANTS MaxLen = 2 ByName = FALSE Emit = TRUE
INVARIANTS RightLibrary EmitAll
CHECK_DEADLOCK FALSE
