SPECIFICATION Spec
CONSTANTS
  Words = {"<s>", "a", "b"}
  MaxLen = 7
  Orders = {1, 2, 3}
  MaxPrune = 3
INVARIANTS Mass Textbook Untouched NoNegative Commute
CHECK_DEADLOCK FALSE
