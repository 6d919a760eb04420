CONSTANT Faults = FALSE
SPECIFICATION Spec
INVARIANT CallsOK
CHECK_DEADLOCK FALSE
