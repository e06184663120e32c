CONSTANT MaxLen = 5
INIT Init
NEXT Next
INVARIANT Utf8IsReadable
INVARIANT PiecesJoin
CHECK_DEADLOCK FALSE
