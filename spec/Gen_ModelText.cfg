SPECIFICATION Spec
CONSTANTS
  Bases = {"one", "two", "none", "tight", "unk"}
  Edits = {"prefix", "char", "line", "count", "field"}
  Letters = {49, 97, 45, 32, 10, 92, 46, 61}
INVARIANT Emit
CHECK_DEADLOCK FALSE
