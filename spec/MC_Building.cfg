CONSTANTS MaxEdits = 1
INIT Init
NEXT Next
INVARIANTS Declarations RightStage FirstFaultIsIt OnlyGood FinishedIffWellFormed NothingAfterRefusal PlanRules
CHECK_DEADLOCK FALSE
