CONSTANTS Size = 16 MinBlock = 2 MaxReq = 8 MaxLive = 6 Coalesce = TRUE Trim = TRUE
SPECIFICATION Spec
INVARIANTS Disjoint Whole Merged Tight FailOnlyFull NoGap
CHECK_DEADLOCK FALSE
