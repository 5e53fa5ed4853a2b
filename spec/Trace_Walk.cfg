SPECIFICATION Spec
INVARIANT Stays
CHECK_DEADLOCK FALSE
