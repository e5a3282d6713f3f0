CONSTANTS Procs = {0, 1}
 Cells = {0, 1, 2, 3, 4}
 MaxOps = 2
 Direct = "fenced"
 FenceWorks = TRUE
SPECIFICATION Spec
INVARIANTS Visible Conserved
CHECK_DEADLOCK FALSE
