CONSTANT NJobs = 0
CONSTANT Job <- TraceJob
CONSTANT Perm <- RealPerm
CONSTANT Inst <- RealInst
INIT RInit
NEXT RNext
INVARIANT Safety
CHECK_DEADLOCK FALSE
