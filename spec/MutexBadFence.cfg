SPECIFICATION Spec
CONSTANTS P = {p1, p2}
 M = {m1}
 K = 2
 Fenced = FALSE
 Alias = FALSE
 Fifo = TRUE
INVARIANTS Serial

CHECK_DEADLOCK FALSE
