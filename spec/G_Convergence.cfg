INIT Init
NEXT Next
CONSTANTS
 Stride = 29
 Salts = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
