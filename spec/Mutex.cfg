SPECIFICATION Spec
CONSTANTS P = {p1, p2, p3}
 M = {m1, m2}
 K = 1
 Fenced = TRUE
 Alias = FALSE
 Fifo = TRUE
INVARIANTS Exclusion Serial Independent
PROPERTY Served
CHECK_DEADLOCK FALSE
