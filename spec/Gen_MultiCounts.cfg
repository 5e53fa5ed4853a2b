SPECIFICATION Spec
CONSTANTS
  Grams = {1, 2}
  Ctxs = {1, 2}
  MaxHist = 5
  Loose = FALSE
VIEW view
CONSTRAINT Bound
INVARIANTS Emit
CHECK_DEADLOCK FALSE
