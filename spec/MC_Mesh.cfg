CONSTANTS MaxSections = 2
 MaxNs = 2
 MaxNc = 2
INIT Init
NEXT Next
INVARIANTS Good Aileron RefDims
CHECK_DEADLOCK FALSE
