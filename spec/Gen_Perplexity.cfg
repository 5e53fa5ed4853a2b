SPECIFICATION Spec
CONSTANTS MaxLen = 3
INVARIANTS Partition Emit
CHECK_DEADLOCK FALSE
