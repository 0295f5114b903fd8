SPECIFICATION Spec
CONSTANTS
  Kinds = {"plain", "sizes", "conv", "native", "rec", "few", "many", "boom", "rank", "out", "share", "nested", "again", "change", "spoil"}
  Steps = 2 MaxLen = 2 Own = TRUE Keep = TRUE Emit = FALSE
INVARIANTS Pure
CHECK_DEADLOCK FALSE
