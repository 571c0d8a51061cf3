INIT Init
NEXT Next
INVARIANTS Good
CHECK_DEADLOCK FALSE
