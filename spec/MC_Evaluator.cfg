SPECIFICATION Spec
CONSTANTS MaxLen = 3
INVARIANTS Forgets Sums Stats Partition
CHECK_DEADLOCK FALSE
