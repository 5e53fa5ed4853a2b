SPECIFICATION Spec
CONSTANTS
  Bases = {"uni", "two", "sent", "three"}
  Edits = {"prefix", "char", "node", "count"}
  Letters = {49, 97, 45, 32, 10}
INVARIANTS Taken Truncated Counted InVocabulary
CHECK_DEADLOCK FALSE
