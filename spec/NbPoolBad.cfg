SPECIFICATION Spec
CONSTANTS NSlots = 2 NLinks = 2 MaxOps = 4 MaxPieces = 2 RecycleWaits = FALSE ChecksTag = TRUE
INVARIANTS CompleteMeansComplete
CHECK_DEADLOCK FALSE
