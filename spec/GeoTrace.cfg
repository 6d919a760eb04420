SPECIFICATION TSpec
CONSTANT N = 2
VIEW View
CHECK_DEADLOCK FALSE
