CONSTANT Align = 64
CONSTANT Deep = TRUE
INIT PInit
NEXT PNext
INVARIANT Emit
CHECK_DEADLOCK FALSE
