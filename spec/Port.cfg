INIT Init
NEXT Next
INVARIANTS Quiet Report ReportBE ReportAny
CHECK_DEADLOCK FALSE
