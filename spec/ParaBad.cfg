CONSTANTS MaxBlocks = 3
 Faulty = TRUE
SPECIFICATION Spec
INVARIANTS CursorOK BlockOK ValueOK
CHECK_DEADLOCK FALSE
