SPECIFICATION Spec
CONSTANTS Backends = {1, 2} Steps = 3 K = 1 MaxLen = 4 Emit = TRUE
INVARIANTS FoldedOnce Independent EmitAll
CHECK_DEADLOCK FALSE
