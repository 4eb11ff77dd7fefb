INIT MCInit
NEXT MCNext
INVARIANTS Tiles Covers EndsOnce KindsKnown
PROPERTIES Progress
CHECK_DEADLOCK FALSE
