SPECIFICATION Spec
INVARIANT Numbers
CHECK_DEADLOCK FALSE
