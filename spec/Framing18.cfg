CONSTANTS
 R = 18
 Lens = {0, 1, 2, 17, 18, 19, 35, 36, 37, 90, 93}
 ShortLens = {0, 1, 16, 17, 18, 35, 36, 77, 89, 88}
INIT Init
NEXT Next
INVARIANTS Unambiguous Report
CHECK_DEADLOCK FALSE
