INIT Init
NEXT Next
INVARIANTS Recovered FirstIsZero
CHECK_DEADLOCK FALSE
