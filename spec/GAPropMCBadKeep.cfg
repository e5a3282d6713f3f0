SPECIFICATION Spec
CONSTANTS
  N = 3
  Vals = {0, 7}
  NodeOf <- Nodes4
  MaxC = 2
  MaxLen = 7
  KeepCache = TRUE
  GopMerge = FALSE
INVARIANTS Invisible Kept 
CHECK_DEADLOCK FALSE
