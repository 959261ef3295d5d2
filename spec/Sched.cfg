INIT Init
NEXT Next
INVARIANTS Ideal Report
VIEW View
CHECK_DEADLOCK FALSE
