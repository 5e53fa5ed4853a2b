SPECIFICATION AnySpec
CONSTANTS Words = 2
 Depth = 3
 Steps = 3
 Tops = 3
INVARIANTS Emit
CHECK_DEADLOCK FALSE
