SPECIFICATION Spec
CONSTANTS
  Words = {"a", "b"}
  MaxLen = 5
  Orders = {1, 2, 3}
  MaxPrune = 2
  MaxSave = 1
INVARIANTS Same Books Highest
CHECK_DEADLOCK FALSE
