SPECIFICATION Spec
CONSTANTS
  Grain = 6
  Deep = TRUE
INVARIANTS Same Normal Idem
CHECK_DEADLOCK FALSE
