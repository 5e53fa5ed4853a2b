SPECIFICATION Spec
CONSTANTS
  Grain = 4
  Deep = TRUE
INVARIANTS Same Normal Idem
CHECK_DEADLOCK FALSE
