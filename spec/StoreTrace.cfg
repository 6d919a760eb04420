SPECIFICATION TSpec
CONSTANTS Xs = {0}
          Ys = {0}
          MaxOps = 0
          MaxItems = 0
          Gen = 0
INVARIANT Accepted
VIEW View
CHECK_DEADLOCK FALSE
