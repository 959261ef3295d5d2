CONSTANT Depth = 3
CONSTANT Wide = FALSE
INIT GInit
NEXT GNext
INVARIANT Emit
CHECK_DEADLOCK FALSE
