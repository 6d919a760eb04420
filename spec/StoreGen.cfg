SPECIFICATION Spec
CONSTANTS Xs = {0, 1, 4, 6, 7, 8, 9, 10, 12, 14, 16}
          Ys = {0, 2, 4, 5, 6, 8, 9, 10, 12, 15, 16}
          MaxOps = 30
          MaxItems = 14
          Gen = 2
CHECK_DEADLOCK FALSE
