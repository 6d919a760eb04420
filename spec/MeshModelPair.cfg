SPECIFICATION Spec
CONSTANTS NX = 2
          NY = 1
          MaxCalls = 4
          Kind = "pair"
INVARIANTS Sound Progress Sensitive
CHECK_DEADLOCK FALSE
