CONSTANT Depth = 3
CONSTANT Impls <- AllImpls
INIT MCInit
NEXT MCNext
INVARIANT IdealClean
INVARIANT IdealState
INVARIANT Report
CHECK_DEADLOCK FALSE
