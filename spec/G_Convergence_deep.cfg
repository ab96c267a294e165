INIT Init
NEXT Next
CONSTANTS
 Stride = 11
 Salts = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE
