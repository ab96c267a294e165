CONSTANTS MaxD1 = 4
 Ts = {0, 12, 30}
INIT Init
NEXT Next
INVARIANTS Rigid SampleOk Round
CHECK_DEADLOCK FALSE
