SPECIFICATION Spec
CONSTANTS
  Words = {"a", "b"}
  MaxLen = 7
  Orders = {1, 2, 3}
  MaxPrune = 3
  MaxSave = 2
INVARIANTS Same Books Highest
CHECK_DEADLOCK FALSE
