SPECIFICATION Spec
INVARIANTS Report Window
CHECK_DEADLOCK FALSE
