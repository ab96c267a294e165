INIT Init
NEXT Next
CONSTANTS
 Stride = 53
 MaxWord = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
