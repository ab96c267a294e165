INIT Init
NEXT Next
CONSTANTS
 Stride = 123
 Ns <- NsDef
INVARIANT Emit
CHECK_DEADLOCK FALSE
