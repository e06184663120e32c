SPECIFICATION Spec
CONSTANTS
  BlockIds = {0, 8}
  Widths = {3}
  Records <- MCRecords
  Abbrevs <- MCAbbrevs
  Lengths = {3}
  MaxDepth = 2
  MaxOps = 5
INVARIANTS RoundTrip PrefixDelivered
CHECK_DEADLOCK FALSE
