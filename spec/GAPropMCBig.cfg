SPECIFICATION Spec
CONSTANTS
  N = 3
  Vals = {0, 7}
  NodeOf <- Nodes3
  MaxC = 2
  MaxLen = 7
  KeepCache = FALSE
  GopMerge = FALSE
INVARIANTS Invisible Kept NothingCached
CHECK_DEADLOCK FALSE
