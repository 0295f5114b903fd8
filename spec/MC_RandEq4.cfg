SPECIFICATION Spec
CONSTANTS MaxN = 4 MaxBonds = 3 MaxOut = 2
INVARIANTS Right NeverStuck
CHECK_DEADLOCK FALSE
