INIT Init
NEXT Next
CONSTANTS
 Side = 1
 Budget = 4
INVARIANTS OnlyTrimmed FirstOne NothingOnlyIfNone GlobalAfterLocal RejectedUntouched
PROPERTY NoneAfter
CHECK_DEADLOCK FALSE
