SPECIFICATION Spec
CONSTANTS Cells = 5 Views = {"c", "f", "step", "rev", "perm", "zero"} Lasts = {"einsum", "dot"} Entries = {"contract"}
  MaxLen = 3 Flat = TRUE Emit = FALSE
INVARIANTS OthersUntouched Delivered
CHECK_DEADLOCK FALSE
