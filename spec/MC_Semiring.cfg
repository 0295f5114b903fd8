SPECIFICATION Spec
CONSTANT Names = {"mod", "gauss", "maxplus", "bool", "gcdlcm", "fuzzy", "sets"}
INVARIANT Laws
CHECK_DEADLOCK FALSE
