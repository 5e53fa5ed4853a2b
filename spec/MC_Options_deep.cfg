SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  Args = {"dash", "end", "a", "empty", "f", "i", "s", "fi", "si", "sf", "fx", "i1", "h", "Lin", "Lineq", "Linempty", "Lfl", "Lfleq", "Lx", "Li", "Linn"}
INVARIANTS Roles InOrder NoOptionArgs Defaults Rejoin Wins
PROPERTY Sticky
CHECK_DEADLOCK FALSE
