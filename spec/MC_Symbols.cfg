SPECIFICATION Spec
CONSTANTS MaxLen = 4
          Emit = TRUE
INVARIANTS Theorem1 Theorem2 EmitAll
CHECK_DEADLOCK FALSE
