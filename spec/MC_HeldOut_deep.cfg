SPECIFICATION Spec
CONSTANTS N = 9
 Offset = 3
 Small = {0, 1, 2}
 Loose = FALSE
INVARIANTS Inside Holds NoWorse
PROPERTIES Narrows Ends
CHECK_DEADLOCK FALSE
