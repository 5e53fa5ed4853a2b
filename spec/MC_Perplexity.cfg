SPECIFICATION Spec
CONSTANTS MaxLen = 4
INVARIANTS Partition WordCount Shares Hits History
CHECK_DEADLOCK FALSE
