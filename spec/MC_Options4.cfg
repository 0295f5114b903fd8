SPECIFICATION Spec
CONSTANTS MaxN = 4
          Drop = FALSE
INVARIANT Agrees
CHECK_DEADLOCK FALSE
