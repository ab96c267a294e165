CONSTANTS Ps = {0, 3, 4, 10, 25}
 MaxSteps = 6
INIT Init
NEXT Next
INVARIANTS Positive Refusals WindowInside Enough Governs
CHECK_DEADLOCK FALSE
