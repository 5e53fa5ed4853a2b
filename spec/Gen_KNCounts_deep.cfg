SPECIFICATION Spec
CONSTANTS
  Words = {"<s>", "a", "b"}
  MaxLen = 6
  Orders = {1, 2, 3}
  MaxPrune = 0
INVARIANTS Emit
CHECK_DEADLOCK FALSE
