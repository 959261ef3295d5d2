INIT Init
NEXT Next
INVARIANTS TypeOK Quiet Report
CHECK_DEADLOCK FALSE
