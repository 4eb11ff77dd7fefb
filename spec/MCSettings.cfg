INIT MCInit
NEXT MCNext
CHECK_DEADLOCK FALSE
