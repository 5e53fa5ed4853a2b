SPECIFICATION Spec
CONSTANTS
  Size = 4
INVARIANTS Closed Same Keeps Idem
CHECK_DEADLOCK FALSE
