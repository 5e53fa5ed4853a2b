SPECIFICATION Spec
CONSTANTS
  Words = {"a", "b"}
  MaxOrder = 3
  MaxQuery = 4
INVARIANTS LongestMatch Closed ConversionKeeps
CHECK_DEADLOCK FALSE
