CONSTANTS Steps = 3
 MaxWrites = 2
INIT Init
NEXT Next
INVARIANTS OnlyOwnWrites TreesSeparate AirfoilsShared SameShape ListSaysIt CarriedOver
CHECK_DEADLOCK FALSE
