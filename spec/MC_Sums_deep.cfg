SPECIFICATION Spec
CONSTANTS
  Words = {"<s>", "a", "b"}
  MaxLen = 6
  Orders = {1, 2, 3}
  MaxPrune = 2
INVARIANTS Mass Sums
CHECK_DEADLOCK FALSE
