SPECIFICATION Spec
CONSTANTS Direct = {}
 Remote = {r1, r2, r3}
 K = 2
 Locked = TRUE
 ServerLocks = FALSE
INVARIANTS Linearizable Final
PROPERTY Served
CHECK_DEADLOCK FALSE
