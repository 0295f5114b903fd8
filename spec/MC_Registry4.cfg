SPECIFICATION Spec
CONSTANTS MaxLen = 4 Emit = TRUE
INVARIANTS BuiltinsStay NoCaseClash FirstWins EmitAll
CHECK_DEADLOCK FALSE
