SPECIFICATION Spec
CONSTANTS N = 5
 Offset = 3
 Small = {0, 1, 2}
 Loose = TRUE
INVARIANTS Inside Holds NoWorse
PROPERTIES Narrows Ends
CHECK_DEADLOCK FALSE
