SPECIFICATION Spec
CONSTANTS NT = 4 NL = 3 Lims = {1, 6, 10, 15}
INVARIANTS Accepted Minimal Exact NeverStuck
CHECK_DEADLOCK FALSE
