CONSTANTS MaxOps = 3
 Stride = 31
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
