SPECIFICATION Spec
CONSTANTS
  Kinds = {"plain", "sizes", "conv", "native", "rec", "few", "many", "boom", "rank", "out", "share", "nested", "again", "change", "spoil"}
  Steps = 2 MaxLen = 2 Own = FALSE Keep = FALSE Emit = FALSE
INVARIANTS Pure
CHECK_DEADLOCK FALSE
