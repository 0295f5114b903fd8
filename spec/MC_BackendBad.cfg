SPECIFICATION Spec
CONSTANTS MaxLen = 3 ByName = TRUE Emit = FALSE
INVARIANTS RightLibrary
CHECK_DEADLOCK FALSE
