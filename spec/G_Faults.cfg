CONSTANTS MaxFaults = 2
 Stride = 67
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
