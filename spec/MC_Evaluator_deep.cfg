SPECIFICATION Spec
CONSTANTS MaxLen = 4
INVARIANTS Forgets Sums Stats Partition
CHECK_DEADLOCK FALSE
