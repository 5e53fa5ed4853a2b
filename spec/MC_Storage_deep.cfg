SPECIFICATION Spec
CONSTANTS
 Words = 3
 MaxLen = 8
 MaxOrder = 5
 Narrow = FALSE
INVARIANTS Follow Occur Once
CHECK_DEADLOCK FALSE
