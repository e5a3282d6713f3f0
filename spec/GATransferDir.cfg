CONSTANTS Procs = {0, 1}
 Cells = {0, 1, 2}
 MaxOps = 2
 Direct = "all"
 FenceWorks = TRUE
SPECIFICATION Spec
INVARIANTS Visible Conserved
CHECK_DEADLOCK FALSE
