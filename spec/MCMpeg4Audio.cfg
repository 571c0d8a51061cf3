CONSTANTS Cond <- MyCond Count <- MyCount Calc <- MyCalc Ext <- MyExt ExtEnc <- MyExtEnc
INIT Init
NEXT Next
INVARIANT Trip
CHECK_DEADLOCK FALSE
