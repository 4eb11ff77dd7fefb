INIT Init
NEXT Next
INVARIANTS Apart Same Failed Kept
CHECK_DEADLOCK FALSE
