SPECIFICATION Spec
CONSTANTS Part = "more" Grain = 4
INVARIANTS Emit
CHECK_DEADLOCK FALSE
