SPECIFICATION Spec
CONSTANTS
  Words = {"<s>", "a", "b"}
  MaxLen = 5
  Orders = {1, 2, 3}
  MaxPrune = 2
INVARIANTS Mass Textbook Untouched NoNegative Commute
CHECK_DEADLOCK FALSE
