INIT Init
NEXT Next
CONSTANTS
 Stride = 7
INVARIANT Emit
CHECK_DEADLOCK FALSE
