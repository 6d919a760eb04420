SPECIFICATION Spec
INVARIANT Accepted
VIEW View
CHECK_DEADLOCK FALSE
