SPECIFICATION Spec
CONSTANTS N = 3
          P = 2
          Broken = "none"
INVARIANTS Result Outside
CHECK_DEADLOCK FALSE
