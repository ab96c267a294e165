CONSTANTS Steps = 8
 Amps <- DeepAmps
 Periods = {0, 3, 10}
INIT Init
NEXT Next
INVARIANTS Shape Bounded Repeats Odd Quarter StillKeeps
CHECK_DEADLOCK FALSE
