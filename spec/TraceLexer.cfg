INIT TInit
NEXT TNext
INVARIANTS Tiles Covers EndsOnce KindsKnown
CHECK_DEADLOCK FALSE
