SPECIFICATION Spec
CONSTANTS
  Grams = {1, 2, 3}
  Ctxs = {1, 2}
  MaxHist = 8
  Loose = FALSE
VIEW view
CONSTRAINT Bound
INVARIANTS Refines
CHECK_DEADLOCK FALSE
