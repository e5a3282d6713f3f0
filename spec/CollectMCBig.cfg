SPECIFICATION Spec
CONSTANTS N = 4 Length = 4 TAG = FALSE ORDER = FALSE ROOT = FALSE
INVARIANTS Defined Sane
CHECK_DEADLOCK TRUE
