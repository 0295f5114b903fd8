SPECIFICATION Spec
CONSTANTS MaxN = 4 MaxArity = 4 Singles = 1 Emit = TRUE
INVARIANTS Partition FormsAgree EmitAll
CHECK_DEADLOCK FALSE
