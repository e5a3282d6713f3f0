SPECIFICATION Spec
CONSTANTS MaxD = 3 NDim = 2 MaxP = 4 EvenCut = TRUE
INVARIANTS PartitionOK OneOwner Pieces Cells
CHECK_DEADLOCK FALSE
