CONSTANT NJobs = 0
CONSTANT Job <- TraceJob
CONSTANT Perm <- RealPerm
CONSTANT Inst <- RealInst
INIT TraceInit
NEXT TraceNext
INVARIANT Safety
CHECK_DEADLOCK FALSE
