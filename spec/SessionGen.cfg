SPECIFICATION Spec
CONSTANTS MaxLen = 10
          MaxRefine = 1
          R = 15
          Gen = TRUE
CHECK_DEADLOCK FALSE
