INIT TInit
NEXT TNext
CONSTANT Budget = 20000
CHECK_DEADLOCK FALSE
