SPECIFICATION Spec
CONSTANTS MaxT = 3 MaxL = 3 MaxRank = 2
INVARIANTS EliminationIsSound OrderDoesNotMatter
CHECK_DEADLOCK FALSE
