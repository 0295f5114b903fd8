SPECIFICATION Spec
CONSTANTS MaxCalls = 2 MaxRep = 3 MaxPre = 3 Emit = TRUE
INVARIANTS Window Contiguous OutExact NothingLeft NeverWorse EmitAll NeverStuck
CHECK_DEADLOCK FALSE
