INIT Init
NEXT Next
VIEW View
INVARIANTS NotAfterPts StateOK
PROPERTIES Monotone NothingBeforeRandom
CHECK_DEADLOCK FALSE
