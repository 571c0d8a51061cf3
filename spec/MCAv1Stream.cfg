INIT Init
NEXT Next
INVARIANTS RoundTrip Canonical Truncated
CHECK_DEADLOCK FALSE
