SPECIFICATION WalkSpec
CONSTANTS Words = 3
 Depth = 3
 Steps = 0
 Tops = 4
INVARIANTS Whole Same
PROPERTIES Once
CHECK_DEADLOCK FALSE
