SPECIFICATION Spec
CONSTANTS Cells = 5 Views = {"c", "f", "step", "rev", "perm", "zero"}
  Lasts = {"einsum", "dot", "dot-transposed", "outer", "unary", "copy", "many", "unoptimized"} Entries = {"contract", "expr", "const", "inter"}
  MaxLen = 2 Flat = FALSE Emit = TRUE
INVARIANTS OthersUntouched Delivered EmitAll
CHECK_DEADLOCK FALSE
