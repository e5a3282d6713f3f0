SPECIFICATION Spec
CONSTANTS P = {p1, p2}
 M = {m1, m2}
 K = 1
 Fenced = TRUE
 Alias = TRUE
 Fifo = TRUE
INVARIANTS Independent

CHECK_DEADLOCK FALSE
