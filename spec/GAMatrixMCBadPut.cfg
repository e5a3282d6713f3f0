SPECIFICATION Spec
CONSTANTS Cells = 2
          Chunks = 2
          P = 2
          Broken = "Put"
INVARIANT Result
CHECK_DEADLOCK FALSE
