INIT MCInit
NEXT MCNext
INVARIANTS RoundTrip Cut Normal Safe
CHECK_DEADLOCK FALSE
