INIT TInit
NEXT TNext
INVARIANT Accepted ParserInWindow
CHECK_DEADLOCK FALSE
