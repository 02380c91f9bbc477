INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
POSTCONDITION TDone
