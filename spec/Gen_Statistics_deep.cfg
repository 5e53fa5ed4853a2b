SPECIFICATION Spec
CONSTANTS
  Orders = 3
  Size = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
