SPECIFICATION Spec
CONSTANTS NProc = 2 Slots = 3 MaxOps = 3 Sizes = {0, 2} REUSE = FALSE UNDO = TRUE LIMIT = FALSE
INVARIANTS Handles Accounting Agree
CHECK_DEADLOCK FALSE
