SPECIFICATION Spec
CONSTANTS
  Grams = {1, 2}
  Ctxs = {1, 2}
  MaxHist = 6
  Loose = TRUE
VIEW view
CONSTRAINT Bound
INVARIANTS Refines
CHECK_DEADLOCK FALSE
