SPECIFICATION Spec
CONSTANTS
  Buckets = 2
  Shrinks = TRUE
  Keys = {0, 1, 2, 4}
  Def = 0
  Hint = 1
  MaxAbs = 1
VIEW view
CONSTRAINT Bound
INVARIANTS Refines Fit Answers
CHECK_DEADLOCK FALSE
