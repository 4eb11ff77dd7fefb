INIT Init
NEXT Next
INVARIANT Depth
CHECK_DEADLOCK FALSE
