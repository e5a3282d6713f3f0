SPECIFICATION Spec
CONSTANTS PX = 2 PY = 2 NX = 1 NY = 2 W = 1 Wait = TRUE
INVARIANT Correct
