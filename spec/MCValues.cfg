INIT VInit
NEXT VNext
CONSTANT Budget = 20000
INVARIANTS ReadsBack Literal Shrinks Bare
CHECK_DEADLOCK FALSE
