SPECIFICATION Spec
CONSTANTS
  Sizes = {2, 3, 5}
  MaxRounds = 2
  MaxOrder = 3
  Skips = {2, 3}
INVARIANTS Proper SameCounts SameContexts SameSizes SameAnswers Closed SameBig
CHECK_DEADLOCK FALSE
