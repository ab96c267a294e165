INIT Init
NEXT Next
CONSTANTS
 Grids <- GridsDef
 Levels = {2, 3, 6}
 Crit = 50
INVARIANTS ReturnsEvaluated FirstSettled Justified Exhausted OrderCovers
CHECK_DEADLOCK FALSE
