SPECIFICATION Spec
CONSTANTS NX = 2
          NY = 1
          MaxCalls = 5
          Kind = "tri3"
INVARIANTS Sound Progress Sensitive
CHECK_DEADLOCK FALSE
