SPECIFICATION Spec
CONSTANTS NT = 3 NL = 3 Lims = {1, 2, 6, 10}
INVARIANTS Accepted Minimal Exact NeverStuck
CHECK_DEADLOCK FALSE
