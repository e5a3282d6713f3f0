CONSTANTS MaxD = 3
 MaxN = 2
SPECIFICATION Spec
INVARIANTS Numbering SectionOK StridedOK PeriodicOK
CHECK_DEADLOCK FALSE
