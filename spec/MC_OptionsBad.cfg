SPECIFICATION Spec
CONSTANTS MaxN = 3
          Drop = TRUE
INVARIANT Agrees
CHECK_DEADLOCK FALSE
