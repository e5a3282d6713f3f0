SPECIFICATION Spec
CONSTANTS NProc = 2 Slots = 3 MaxOps = 3 Sizes = {2} REUSE = TRUE UNDO = FALSE LIMIT = FALSE
INVARIANTS Handles Accounting Agree
CHECK_DEADLOCK FALSE
