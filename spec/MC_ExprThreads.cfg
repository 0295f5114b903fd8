SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3} ListFirst = TRUE
INVARIANT Right
CHECK_DEADLOCK FALSE
