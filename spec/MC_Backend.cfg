SPECIFICATION Spec
CONSTANTS MaxLen = 3 ByName = FALSE Emit = TRUE
INVARIANTS RightLibrary EmitAll
CHECK_DEADLOCK FALSE
