SPECIFICATION Spec
CONSTANTS N = 6
          MaxOps = 7
          Gen = 3
CHECK_DEADLOCK FALSE
