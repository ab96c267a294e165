CONSTANTS Ps = {0, 4, 10}
 MaxSteps = 2
INIT Init
NEXT Next
INVARIANTS Positive Refusals WindowInside Enough Governs
CHECK_DEADLOCK FALSE
