SPECIFICATION Spec
CONSTANTS Direct = {d1, d2}
 Remote = {r1}
 K = 2
 Locked = TRUE
 ServerLocks = TRUE
INVARIANTS Linearizable Final
PROPERTY Served
CHECK_DEADLOCK FALSE
