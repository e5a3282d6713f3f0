SPECIFICATION Spec
CONSTANTS PX = 2 PY = 2 NX = 2 NY = 1 W = 1 Wait = FALSE
INVARIANT Correct
