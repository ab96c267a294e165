INIT Init
NEXT Next
CONSTANTS
 Stride = 37
INVARIANT Emit
CHECK_DEADLOCK FALSE
