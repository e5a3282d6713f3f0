SPECIFICATION Spec
CONSTANTS Direct = {d1}
 Remote = {r1, r2}
 K = 2
 Locked = TRUE
 ServerLocks = FALSE
INVARIANTS Linearizable Final
PROPERTY Served
CHECK_DEADLOCK FALSE
