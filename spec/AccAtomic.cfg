CONSTANTS Local = {0, 1}
 Remote = {2, 3}
 Reps = 2
 ServerLocks = TRUE
SPECIFICATION Spec
INVARIANT Exact
PROPERTY Finishes
CHECK_DEADLOCK FALSE
