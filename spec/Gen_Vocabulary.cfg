SPECIFICATION Spec
CONSTANTS
  MaxOps = 2
  WordLen = 1
  LineLen = 3
INVARIANTS Emit
CHECK_DEADLOCK FALSE
