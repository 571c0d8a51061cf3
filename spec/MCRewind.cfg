INIT Init
NEXT Next
CONSTANTS Max = 5
 N = 7
INVARIANTS Exact NoLoss Bounded
CHECK_DEADLOCK FALSE
