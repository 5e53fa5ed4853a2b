SPECIFICATION Spec
CONSTANTS
  Orders = 3
  Size = 2
INVARIANTS Normal Counted Unseen NotMore Noticed
CHECK_DEADLOCK FALSE
