SPECIFICATION Spec
CONSTANTS NSlots = 2 NLinks = 3 MaxOps = 5 MaxPieces = 3 RecycleWaits = TRUE ChecksTag = TRUE
INVARIANTS CompleteMeansComplete Consistent NothingForgotten
CHECK_DEADLOCK FALSE
