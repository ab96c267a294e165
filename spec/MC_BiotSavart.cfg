CONSTANTS N = 2
INIT Init
NEXT Next
INVARIANTS Finite OnAxisZero OffAxisNonZero Reversal Perpendicular Linear Additive CoreShrinks CoreGrows Translate Degenerate Stokes RingCentre
CHECK_DEADLOCK FALSE
