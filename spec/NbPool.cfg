SPECIFICATION Spec
CONSTANTS NSlots = 2 NLinks = 2 MaxOps = 4 MaxPieces = 2 RecycleWaits = TRUE ChecksTag = TRUE
INVARIANTS CompleteMeansComplete Consistent NothingForgotten
CHECK_DEADLOCK FALSE
