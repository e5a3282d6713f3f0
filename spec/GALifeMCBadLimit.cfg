SPECIFICATION Spec
CONSTANTS NProc = 2 Slots = 3 MaxOps = 3 Sizes = {2} REUSE = FALSE UNDO = FALSE LIMIT = TRUE
INVARIANTS Handles Accounting Agree
CHECK_DEADLOCK FALSE
