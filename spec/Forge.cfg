CONSTANT Depth = 1
INIT FInit
NEXT FNext
INVARIANT Emit
VIEW View
CHECK_DEADLOCK FALSE
