SPECIFICATION Spec
CONSTANTS N = 3 Length = 2 TAG = FALSE ORDER = FALSE ROOT = TRUE
INVARIANTS Defined Sane
CHECK_DEADLOCK TRUE
