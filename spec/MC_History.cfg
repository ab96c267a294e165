CONSTANTS MaxRuns = 3
 MaxEdits = 1
 ResetAtStart = TRUE
INIT Init
NEXT Next
INVARIANT Faithful
PROPERTY Separate
CHECK_DEADLOCK FALSE
