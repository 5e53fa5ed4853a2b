SPECIFICATION Spec
CONSTANTS MaxLen = 2
INVARIANTS Emit
CHECK_DEADLOCK FALSE
