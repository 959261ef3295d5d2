CONSTANT Align = 16
CONSTANT Deep = FALSE
INIT PInit
NEXT PNext
INVARIANT Emit
CHECK_DEADLOCK FALSE
