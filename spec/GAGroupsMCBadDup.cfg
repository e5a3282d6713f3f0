SPECIFICATION Spec
CONSTANTS N = 3 MaxGroups = 2 DUP = TRUE NEST = FALSE
INVARIANT Agrees
CHECK_DEADLOCK FALSE
