SPECIFICATION PSpec
CONSTANTS N = 2
          MaxOps = 4
          Gen = 1
CHECK_DEADLOCK FALSE
