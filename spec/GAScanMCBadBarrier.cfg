SPECIFICATION Spec
CONSTANTS N = 4 P = 3 Barrier = FALSE
INVARIANTS Correct PackCorrect
CHECK_DEADLOCK FALSE
