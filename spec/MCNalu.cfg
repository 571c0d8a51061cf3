INIT Init
NEXT Next
INVARIANTS Same NoStartCode RoundTrip
CHECK_DEADLOCK FALSE
