CONSTANTS Procs = {0, 1}
 Cells = {0, 1, 2}
 MaxOps = 2
 Direct = "none"
 FenceWorks = FALSE
SPECIFICATION Spec
INVARIANTS Visible Conserved
CHECK_DEADLOCK FALSE
