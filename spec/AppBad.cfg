CONSTANT Faults = TRUE
SPECIFICATION Spec
INVARIANT CallsOK
CHECK_DEADLOCK FALSE
