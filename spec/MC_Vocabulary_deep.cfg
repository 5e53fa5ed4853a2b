SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
  WordLen = 2
  LineLen = 4
INVARIANTS OneToOne ReadBack Statics
PROPERTIES Stable
VIEW View
CHECK_DEADLOCK FALSE
