CONSTANTS Size = 12 MinBlock = 2 MaxReq = 6 MaxLive = 4 Coalesce = TRUE Trim = TRUE
SPECIFICATION Spec
INVARIANTS Disjoint Whole Merged Tight FailOnlyFull NoGap
CHECK_DEADLOCK FALSE
