SPECIFICATION Spec
CONSTANTS MaxLen = 5
          Emit = TRUE
INVARIANTS Theorem1 Theorem2 EmitAll
CHECK_DEADLOCK FALSE
