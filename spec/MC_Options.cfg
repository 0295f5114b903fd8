SPECIFICATION Spec
CONSTANTS MaxN = 3
          Drop = FALSE
INVARIANT Agrees
CHECK_DEADLOCK FALSE
