SPECIFICATION Spec
INVARIANTS Report Coupled
CHECK_DEADLOCK FALSE
