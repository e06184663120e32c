INIT TInit
NEXT TNext
INVARIANT Accepted
CHECK_DEADLOCK FALSE
