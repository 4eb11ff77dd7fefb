INIT MCInit
NEXT MCNext
INVARIANTS Sound
CHECK_DEADLOCK FALSE
