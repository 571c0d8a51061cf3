INIT Init
NEXT Next
INVARIANTS RoundTrip Canonical
CHECK_DEADLOCK FALSE
