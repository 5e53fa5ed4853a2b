SPECIFICATION Spec
CONSTANTS
  N = 6
  Uni = 3
  K = 6
  Guard = TRUE
INVARIANTS Fits Untouched Needed
PROPERTIES Shrinks Ends
CHECK_DEADLOCK FALSE
