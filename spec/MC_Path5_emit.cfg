SPECIFICATION Spec
CONSTANTS MaxN = 5 MaxArity = 5 Singles = 1 Emit = TRUE
INVARIANTS Partition FormsAgree EmitAll
CHECK_DEADLOCK FALSE
