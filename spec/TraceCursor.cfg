INIT TInit
NEXT TNext
INVARIANT Accepted InWindowInv
CHECK_DEADLOCK FALSE
