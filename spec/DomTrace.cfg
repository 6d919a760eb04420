SPECIFICATION TSpec
CONSTANTS N = 6
          MaxOps = 0
          Gen = 0
INVARIANT Accepted
VIEW View
CHECK_DEADLOCK FALSE
