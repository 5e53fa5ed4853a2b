SPECIFICATION WalkSpec
CONSTANTS Words = 2
 Depth = 3
 Steps = 0
 Tops = 5
INVARIANTS Whole Same
PROPERTIES Once
CHECK_DEADLOCK FALSE
