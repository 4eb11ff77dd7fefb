INIT Init
NEXT Next
INVARIANTS Determined Copied Kinds
CHECK_DEADLOCK FALSE
