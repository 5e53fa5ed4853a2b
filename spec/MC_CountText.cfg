SPECIFICATION Spec
CONSTANTS
  Bases = {"one", "two", "two3", "high"}
  Edits = {"prefix", "char", "line", "field"}
  Letters = {49, 45, 32, 10, 91}
INVARIANTS SameLanguage Folded Intact Truncated Mangled Missing
PROPERTY NeverBack
CHECK_DEADLOCK FALSE
