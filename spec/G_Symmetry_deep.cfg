INIT Init
NEXT Next
CONSTANTS
 Stride = 7
 MaxWord = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
