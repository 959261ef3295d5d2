CONSTANT Rate = 8
INIT Init
NEXT Next
INVARIANTS IdealIsSilent Report
CHECK_DEADLOCK FALSE
