SPECIFICATION Spec
CONSTANTS NTerms = 4
 Labels = {1, 2}
 MaxRank = 2
 Sizes = {2, 3}
 NBs = {0, 2}
 Cuts = {2}
 Objs = {"flops", "size"}
 Fns = {1}
 Flip = {FALSE}
INVARIANT Found
INVARIANT NoneMissed
CHECK_DEADLOCK FALSE
