SPECIFICATION Spec
INVARIANTS Report Partition
CHECK_DEADLOCK FALSE
