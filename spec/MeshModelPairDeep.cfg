SPECIFICATION Spec
CONSTANTS NX = 2
          NY = 1
          MaxCalls = 6
          Kind = "pair"
INVARIANTS Sound Progress Sensitive
CHECK_DEADLOCK FALSE
