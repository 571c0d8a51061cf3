INIT Init
NEXT Next
INVARIANTS RoundTrip Truncated Canonical
CHECK_DEADLOCK FALSE
