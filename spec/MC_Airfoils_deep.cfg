CONSTANTS MaxD1 = 9
 Ts = {0, 6, 12, 21, 40}
INIT Init
NEXT Next
INVARIANTS Rigid SampleOk Round
CHECK_DEADLOCK FALSE
