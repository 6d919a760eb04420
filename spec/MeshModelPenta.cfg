SPECIFICATION Spec
CONSTANTS NX = 2
          NY = 2
          MaxCalls = 2
          Kind = "penta"
INVARIANTS Sound Progress
CHECK_DEADLOCK FALSE
