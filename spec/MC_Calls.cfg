SPECIFICATION Spec
CONSTANTS
  Kinds = {"plain", "sizes", "conv", "native", "rec", "few", "many", "boom", "rank", "out", "share", "nested", "again", "change", "spoil"}
  Steps = 2 MaxLen = 3 Own = TRUE Keep = FALSE Emit = TRUE
INVARIANTS Pure AnswerFits EmitAll
CHECK_DEADLOCK FALSE
