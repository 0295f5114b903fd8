SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
 MaxRuns = 2
 Atomic = FALSE
 Shared = TRUE
INVARIANT ObserverSound
INVARIANT Isolated
INVARIANT Right
CHECK_DEADLOCK FALSE
