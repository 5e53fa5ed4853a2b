SPECIFICATION Spec
INVARIANT Mass
CHECK_DEADLOCK FALSE
