CONSTANTS MaxOps = 4
 Stride = 23
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
