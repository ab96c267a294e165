INIT Init
NEXT Next
CONSTANTS
 Stride = 615
 Ns <- NsDef
INVARIANT Emit
CHECK_DEADLOCK FALSE
