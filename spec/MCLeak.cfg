INIT Init
NEXT Next
INVARIANTS Quiet Caught
CHECK_DEADLOCK FALSE
