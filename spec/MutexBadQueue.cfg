SPECIFICATION Spec
CONSTANTS P = {p1, p2}
 M = {m1}
 K = 1
 Fenced = TRUE
 Alias = FALSE
 Fifo = FALSE
INVARIANTS Exclusion

CHECK_DEADLOCK FALSE
