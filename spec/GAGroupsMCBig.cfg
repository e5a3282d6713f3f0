SPECIFICATION Spec
CONSTANTS N = 4 MaxGroups = 3 DUP = FALSE NEST = FALSE
INVARIANT Agrees
CHECK_DEADLOCK FALSE
