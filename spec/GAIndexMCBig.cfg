CONSTANTS MaxD = 3
 MaxN = 3
SPECIFICATION Spec
INVARIANTS Numbering SectionOK StridedOK PeriodicOK
CHECK_DEADLOCK FALSE
