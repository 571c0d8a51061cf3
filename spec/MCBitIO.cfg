INIT Init
NEXT Next
INVARIANTS ReadBack CursorOK TypeOK
CHECK_DEADLOCK FALSE
