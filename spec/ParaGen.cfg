CONSTANTS MaxBlocks = 3
 Faulty = FALSE
SPECIFICATION Spec
INVARIANTS CursorOK BlockOK ValueOK
CHECK_DEADLOCK FALSE
