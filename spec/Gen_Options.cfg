SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Args = {"dash", "end", "a", "empty", "f", "i", "s", "fi", "si", "sf", "fx", "i1", "h", "Lin", "Lineq", "Linempty", "Lfl", "Lfleq", "Lx", "Li", "Linn"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
