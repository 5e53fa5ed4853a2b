SPECIFICATION Spec
INVARIANTS Between AtEnds Linear Swap
CHECK_DEADLOCK FALSE
