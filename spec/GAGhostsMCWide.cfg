SPECIFICATION Spec
CONSTANTS PX = 3 PY = 1 NX = 1 NY = 2 W = 2 Wait = TRUE
INVARIANT Correct
