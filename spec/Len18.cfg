CONSTANT Rate = 18
INIT Init
NEXT Next
INVARIANTS IdealIsSilent Report
CHECK_DEADLOCK FALSE
