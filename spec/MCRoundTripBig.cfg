SPECIFICATION Spec
CONSTANTS
  BlockIds = {0, 8}
  Widths = {3, 5}
  Records <- MCRecordsBig
  Abbrevs <- MCAbbrevs
  Lengths = {3}
  MaxDepth = 3
  MaxOps = 5
INVARIANTS RoundTrip PrefixDelivered
CHECK_DEADLOCK FALSE
