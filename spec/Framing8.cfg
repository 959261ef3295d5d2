CONSTANTS
 R = 8
 Lens = {0, 1, 2, 7, 8, 9, 15, 16, 17, 40, 43}
 ShortLens = {0, 1, 6, 7, 8, 15, 16, 37, 39, 38}
INIT Init
NEXT Next
INVARIANTS Unambiguous Report
CHECK_DEADLOCK FALSE
