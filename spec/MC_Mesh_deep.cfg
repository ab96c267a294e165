CONSTANTS MaxSections = 3
 MaxNs = 2
 MaxNc = 3
INIT Init
NEXT Next
INVARIANTS Good Aileron RefDims
CHECK_DEADLOCK FALSE
