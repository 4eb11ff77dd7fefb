INIT MCInit
NEXT MCNext
INVARIANTS NoCR NoTab NoNul NoLeadingNl NoTrailingNl NoBlankRun
PROPERTIES KeepsText KeepsRest
CHECK_DEADLOCK FALSE
