SPECIFICATION Spec
CONSTANTS N = 3 Length = 3 TAG = FALSE ORDER = FALSE ROOT = FALSE
INVARIANTS Defined Sane
CHECK_DEADLOCK TRUE
