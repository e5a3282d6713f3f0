SPECIFICATION Spec
CONSTANTS N = 6 P = 3 Barrier = TRUE
INVARIANTS Correct PackCorrect
CHECK_DEADLOCK FALSE
