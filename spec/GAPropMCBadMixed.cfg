SPECIFICATION Spec
CONSTANTS
  N = 3
  Vals = {0, 7}
  NodeOf <- Nodes3
  MaxC = 2
  MaxLen = 5
  KeepCache = FALSE
  GopMerge = TRUE
INVARIANTS Invisible Kept 
CHECK_DEADLOCK FALSE
