SPECIFICATION Spec
CONSTANTS Xs = {4, 8, 12}
          Ys = {4, 8}
          MaxOps = 4
          MaxItems = 4
          Gen = 0
INVARIANTS Unique Fresh Cover
CHECK_DEADLOCK FALSE
