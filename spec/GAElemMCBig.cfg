SPECIFICATION Spec
CONSTANTS N = 4
          P = 2
          Broken = "none"
INVARIANTS Result Outside
PROPERTY Ends
CHECK_DEADLOCK FALSE
