SPECIFICATION Spec
CONSTANTS MaxCalls = 3 MaxRep = 2 MaxPre = 3 Emit = TRUE
INVARIANTS Window Contiguous OutExact NothingLeft NeverWorse EmitAll NeverStuck
CHECK_DEADLOCK FALSE
