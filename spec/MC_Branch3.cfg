SPECIFICATION Spec
CONSTANTS NTerms = 3
 Labels = {1, 2, 3}
 MaxRank = 2
 Sizes = {2}
 NBs = {0, 1, 2}
 Cuts = {1, 2}
 Objs = {"flops", "size"}
 Fns = {1, 3}
 Flip = {FALSE, TRUE}
INVARIANT Found
INVARIANT NoneMissed
CHECK_DEADLOCK FALSE
