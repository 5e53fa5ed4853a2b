SPECIFICATION Spec
CONSTANTS
  Bases = {"one", "two", "two3", "high", "three"}
  Edits = {"prefix", "char", "line", "field"}
  Letters = {49, 57, 45, 32, 10, 92, 91, 93, 97, 48, 9, 0, 13, 43, 46}
INVARIANTS SameLanguage Folded Intact Truncated Mangled Missing
PROPERTY NeverBack
CHECK_DEADLOCK FALSE
