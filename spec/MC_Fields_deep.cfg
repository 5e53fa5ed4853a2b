SPECIFICATION Spec
CONSTANT MaxLen = 7
INVARIANTS Back Whole InSingle InDouble Trim
CHECK_DEADLOCK FALSE
