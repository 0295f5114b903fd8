SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}
 MaxRuns = 1
 Atomic = FALSE
 Shared = TRUE
INVARIANT ObserverSound
INVARIANT Isolated
INVARIANT Right
CHECK_DEADLOCK FALSE
