SPECIFICATION Spec
CONSTANTS
  Size = 3
INVARIANTS Emit
CHECK_DEADLOCK FALSE
