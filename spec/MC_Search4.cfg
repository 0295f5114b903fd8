SPECIFICATION Spec
CONSTANTS
  NT = 4
  NL = 3
  Objs = {"pair", "flops", "size", "combo", "limit"}
  Lims = {0, 6}
  Szs = {1}
INVARIANTS Minimal Reached LegsOk
CHECK_DEADLOCK FALSE
