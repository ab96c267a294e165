CONSTANTS Shapes = {1, 2, 3, 4, 5, 6}
 Motions = {1, 2, 3}
 Streams = {1, 2, 3}
 MaxStep = 10
INIT Init
NEXT Next
INVARIANTS TangencyHolds WakeComplete Permanent Shared Attached PrescribedForm Gate Transfer OnceEach Turned NoSide Lines
CHECK_DEADLOCK FALSE
