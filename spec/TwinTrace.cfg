SPECIFICATION Spec
INVARIANTS Accepted Consumed
CHECK_DEADLOCK FALSE
