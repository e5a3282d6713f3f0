CONSTANTS Local = {0, 1}
 Remote = {2, 3}
 Reps = 2
 ServerLocks = FALSE
SPECIFICATION Spec
INVARIANT Exact
CHECK_DEADLOCK FALSE
