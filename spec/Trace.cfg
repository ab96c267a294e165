INIT TInit
NEXT TNext
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
