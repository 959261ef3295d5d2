INIT TInit
NEXT TNext
INVARIANT Finished
CHECK_DEADLOCK FALSE
