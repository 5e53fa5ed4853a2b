SPECIFICATION Spec
CONSTANTS
  Orders = 3
  Size = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE
