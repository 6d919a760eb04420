SPECIFICATION GSpec
CONSTANT N = 2
INVARIANT Laws
CHECK_DEADLOCK FALSE
