SPECIFICATION Spec
CONSTANTS NX = 2
          NY = 2
          MaxCalls = 4
          Kind = "stack"
INVARIANTS Sound Progress Sensitive
CHECK_DEADLOCK FALSE
