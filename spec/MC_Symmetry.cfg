CONSTANTS Shapes = {1, 2, 3, 4, 5, 6, 7, 8, 9}
 Motions = {1, 3}
 Streams = {2, 3}
 MaxStep = 1
INIT Init
NEXT Next
INVARIANTS Law Undone Commute Alive
CHECK_DEADLOCK FALSE
