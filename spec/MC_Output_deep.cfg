INIT Init
NEXT Next
CONSTANTS
 MaxSteps = 3
 MaxLines = 1
 ClearBetween = TRUE
INVARIANTS ShowsEverything NeverOdd
CHECK_DEADLOCK FALSE
