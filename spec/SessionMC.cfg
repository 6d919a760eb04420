SPECIFICATION Spec
CONSTANTS MaxLen = 9
          MaxRefine = 1
          R = 0
          Gen = FALSE
VIEW ProtoView
INVARIANTS DomsDisjoint OwnDomain GoneAbsorbed ConnectedMerge MergedIsFull
CHECK_DEADLOCK FALSE
