SPECIFICATION PSpec
CONSTANTS N = 2
          MaxOps = 4
          Gen = 0
INVARIANT Laws
CHECK_DEADLOCK FALSE
