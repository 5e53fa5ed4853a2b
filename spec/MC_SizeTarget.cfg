SPECIFICATION Spec
CONSTANTS
  N = 4
  Uni = 3
  K = 4
  Guard = TRUE
INVARIANTS Fits Untouched Needed
PROPERTIES Shrinks Ends
CHECK_DEADLOCK FALSE
