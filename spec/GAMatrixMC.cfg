SPECIFICATION Spec
CONSTANTS Cells = 2
          Chunks = 2
          P = 2
          Broken = "none"
INVARIANT Result
PROPERTY Ends
CHECK_DEADLOCK FALSE
