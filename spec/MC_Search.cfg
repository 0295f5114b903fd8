SPECIFICATION Spec
CONSTANTS
  NT = 3
  NL = 3
  Objs = {"pair", "flops", "size", "combo"}
  Lims = {0, 6}
  Szs = {1}
INVARIANTS Minimal Reached LegsOk
CHECK_DEADLOCK FALSE
