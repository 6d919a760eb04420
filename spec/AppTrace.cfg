SPECIFICATION Spec
INVARIANT Accepted
CHECK_DEADLOCK FALSE
