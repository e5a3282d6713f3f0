SPECIFICATION Spec
CONSTANTS NProc = 3 Groups = {{0, 1, 2}, {0, 1}, {1, 2}} Length = 1 FenceWorks = FALSE WaitAll = TRUE CountOnce = TRUE
INVARIANTS NoEarlyLeave Complete
CHECK_DEADLOCK TRUE
