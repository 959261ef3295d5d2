INIT Init
NEXT Next
INVARIANTS Quiet Report
CHECK_DEADLOCK FALSE
