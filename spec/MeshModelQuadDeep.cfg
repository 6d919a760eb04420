SPECIFICATION Spec
CONSTANTS NX = 2
          NY = 2
          MaxCalls = 3
          Kind = "quad"
INVARIANTS Sound Progress Sensitive
CHECK_DEADLOCK FALSE
