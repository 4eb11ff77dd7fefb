INIT MCInit
NEXT MCNext
INVARIANTS Safe IsolatedOnce
CHECK_DEADLOCK FALSE
