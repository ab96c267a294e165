CONSTANTS MaxMoves = 1
 Stride = 7
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
