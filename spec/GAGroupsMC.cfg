SPECIFICATION Spec
CONSTANTS N = 3 MaxGroups = 3 DUP = FALSE NEST = FALSE
INVARIANT Agrees
CHECK_DEADLOCK FALSE
