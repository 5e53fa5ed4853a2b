SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
  WordLen = 1
  LineLen = 3
INVARIANTS OneToOne ReadBack Statics
PROPERTIES Stable
VIEW View
CHECK_DEADLOCK FALSE
