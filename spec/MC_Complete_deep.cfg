SPECIFICATION Spec
CONSTANTS
  Size = 6
INVARIANTS Closed Same Keeps Idem
CHECK_DEADLOCK FALSE
