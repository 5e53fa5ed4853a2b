SPECIFICATION Spec
CONSTANTS
  Sizes = {2, 3, 5}
  MaxRounds = 3
  MaxOrder = 4
  Skips = {2, 3}
INVARIANTS Proper SameCounts SameContexts SameSizes SameAnswers Closed SameBig
CHECK_DEADLOCK FALSE
