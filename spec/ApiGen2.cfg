CONSTANT Depth = 2
CONSTANT Wide = TRUE
INIT GInit
NEXT GNext
INVARIANT Emit
CHECK_DEADLOCK FALSE
