SPECIFICATION Spec
CONSTANTS NProc = 3 Groups = {{0, 2}, {0, 1}, {0, 1, 2}} Length = 2 FenceWorks = TRUE WaitAll = TRUE CountOnce = FALSE
INVARIANTS NoEarlyLeave Complete
CHECK_DEADLOCK TRUE
