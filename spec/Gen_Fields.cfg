SPECIFICATION Spec
CONSTANT MaxLen = 5
INVARIANT Emit
CHECK_DEADLOCK FALSE
