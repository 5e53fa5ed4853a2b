SPECIFICATION Spec
CONSTANTS Part = "same" Grain = 4
INVARIANTS Inputs Normalized Union Convex Swap Self Ends
CHECK_DEADLOCK FALSE
