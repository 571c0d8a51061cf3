INIT Init
NEXT Next
VIEW View
INVARIANTS NotAfterPts StateOK
PROPERTIES Monotone Reset
CHECK_DEADLOCK FALSE
