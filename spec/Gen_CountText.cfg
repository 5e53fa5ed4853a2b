SPECIFICATION Spec
CONSTANTS
  Bases = {"one", "two", "two3", "high"}
  Edits = {"prefix", "char", "line", "field"}
  Letters = {49, 57, 45, 32, 10, 92, 91, 97}
INVARIANT Emit
CHECK_DEADLOCK FALSE
