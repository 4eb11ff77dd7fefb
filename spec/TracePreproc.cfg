INIT TInit
NEXT TNext
INVARIANTS NoCR NoTab NoNul NoLeadingNl NoTrailingNl NoBlankRun
CHECK_DEADLOCK FALSE
