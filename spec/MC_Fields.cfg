SPECIFICATION Spec
CONSTANT MaxLen = 5
INVARIANTS Back Whole InSingle InDouble Trim
CHECK_DEADLOCK FALSE
