SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3} ListFirst = FALSE
INVARIANT Right
CHECK_DEADLOCK FALSE
