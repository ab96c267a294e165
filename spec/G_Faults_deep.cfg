CONSTANTS MaxFaults = 3
 Stride = 83
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
