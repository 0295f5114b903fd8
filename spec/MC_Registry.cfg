SPECIFICATION Spec
CONSTANTS MaxLen = 3 Emit = TRUE
INVARIANTS BuiltinsStay NoCaseClash FirstWins EmitAll
CHECK_DEADLOCK FALSE
