SPECIFICATION Spec
CONSTANTS N = 6
          MaxOps = 9
          Gen = 2
CHECK_DEADLOCK FALSE
