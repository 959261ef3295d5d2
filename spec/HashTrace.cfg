CONSTANT HNJobs = 0
CONSTANT HJob <- TraceHJob
INIT HTraceInit
NEXT HTraceNext
INVARIANT HTraceSafety
CHECK_DEADLOCK FALSE
