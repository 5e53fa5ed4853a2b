SPECIFICATION Spec
CONSTANTS MaxLen = 3
INVARIANTS Emit
CHECK_DEADLOCK FALSE
