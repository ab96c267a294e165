CONSTANTS MaxRuns = 4
 MaxEdits = 2
 ResetAtStart = TRUE
INIT Init
NEXT Next
INVARIANT Faithful
PROPERTY Separate
CHECK_DEADLOCK FALSE
