SPECIFICATION Spec
CONSTANTS Cells = 3
          Chunks = 3
          P = 3
          Broken = "none"
INVARIANT Result
CHECK_DEADLOCK FALSE
