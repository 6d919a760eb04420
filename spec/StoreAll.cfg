SPECIFICATION Spec
CONSTANTS Xs = {4, 8}
          Ys = {8, 11}
          MaxOps = 4
          MaxItems = 4
          Gen = 1
CHECK_DEADLOCK FALSE
