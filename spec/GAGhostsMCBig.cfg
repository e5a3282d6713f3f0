SPECIFICATION Spec
CONSTANTS PX = 2 PY = 2 NX = 2 NY = 2 W = 2 Wait = TRUE
INVARIANT Correct
