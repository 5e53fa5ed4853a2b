SPECIFICATION AnySpec
CONSTANTS Words = 2
 Depth = 3
 Steps = 40
 Tops = 5
VIEW view
INVARIANTS Stays Back Same
CHECK_DEADLOCK FALSE
