SPECIFICATION Spec
CONSTANTS
  Orders = 3
  Size = 3
INVARIANTS Normal Counted Unseen NotMore Noticed
CHECK_DEADLOCK FALSE
