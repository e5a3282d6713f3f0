SPECIFICATION Spec
CONSTANTS N = 3 Length = 2 TAG = FALSE ORDER = TRUE ROOT = FALSE
INVARIANTS Defined Sane
CHECK_DEADLOCK TRUE
