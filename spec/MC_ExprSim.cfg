SPECIFICATION Spec
CONSTANTS Backends = {1, 2, 3, 4} Steps = 3 K = 1 MaxLen = 12 Emit = TRUE
INVARIANTS FoldedOnce Independent EmitAll
CHECK_DEADLOCK FALSE
