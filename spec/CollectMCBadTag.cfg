SPECIFICATION Spec
CONSTANTS N = 3 Length = 2 TAG = TRUE ORDER = FALSE ROOT = FALSE
INVARIANTS Defined Sane
CHECK_DEADLOCK TRUE
