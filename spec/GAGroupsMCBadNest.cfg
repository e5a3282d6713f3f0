SPECIFICATION Spec
CONSTANTS N = 3 MaxGroups = 2 DUP = FALSE NEST = TRUE
INVARIANT Agrees
CHECK_DEADLOCK FALSE
