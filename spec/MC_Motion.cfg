CONSTANTS Steps = 4
 Amps <- QuickAmps
 Periods = {3, 10}
INIT Init
NEXT Next
INVARIANTS Shape Bounded Repeats Odd Quarter StillKeeps
CHECK_DEADLOCK FALSE
