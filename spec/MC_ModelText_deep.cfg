SPECIFICATION Spec
CONSTANTS
  Bases = {"one", "two", "none", "tight", "unk", "three"}
  Edits = {"prefix", "char", "line", "count", "field"}
  Letters = {49, 97, 45, 32, 10, 92, 46, 61, 48, 9, 101, 120, 0, 13, 43}
INVARIANTS SameLanguage Folded AsListed Whole Truncated Counted Missing Doubled Unparsable
PROPERTY NeverBack
CHECK_DEADLOCK FALSE
