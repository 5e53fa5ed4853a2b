SPECIFICATION Spec
CONSTANTS
 Words = 3
 MaxLen = 6
 MaxOrder = 4
 Narrow = FALSE
INVARIANTS Follow Occur Once
CHECK_DEADLOCK FALSE
