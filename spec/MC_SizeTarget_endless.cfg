SPECIFICATION Spec
CONSTANTS
  N = 4
  Uni = 3
  K = 4
  Guard = FALSE
PROPERTIES Ends
CHECK_DEADLOCK FALSE
