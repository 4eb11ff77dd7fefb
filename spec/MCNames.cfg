INIT MCInit
NEXT MCNext
CONSTANT Budget = 20000
INVARIANT Known
CHECK_DEADLOCK FALSE
