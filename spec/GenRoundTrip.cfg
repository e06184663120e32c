SPECIFICATION Spec
CONSTANTS
  BlockIds = {0, 8, 9}
  Widths = {3, 4, 6}
  Records <- MCRecordsBig
  Abbrevs <- MCAbbrevs
  Lengths = {3}
  MaxDepth = 3
  MaxOps = 16
INVARIANTS Emit
CHECK_DEADLOCK FALSE
