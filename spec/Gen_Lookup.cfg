SPECIFICATION Spec
CONSTANTS
  Words = {"a", "b"}
  MaxOrder = 3
  MaxQuery = 4
INVARIANTS Emit
CONSTRAINT Stay
CHECK_DEADLOCK FALSE
