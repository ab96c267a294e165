CONSTANTS Steps = 2
 MaxWrites = 1
INIT Init
NEXT Next
INVARIANTS OnlyOwnWrites TreesSeparate AirfoilsShared SameShape ListSaysIt CarriedOver
CHECK_DEADLOCK FALSE
