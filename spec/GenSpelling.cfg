SPECIFICATION Spec
CONSTANTS
  BlockIds = {8, 17, 13, 23}
  Widths = {2, 3, 5}
  Records = {}
  Abbrevs <- MCAbbrevs
  Lengths = {1}
  MaxDepth = 3
  HostTriple = "host"
  Contents <- All_
  Extras = 8
INVARIANTS Means Emit
CHECK_DEADLOCK FALSE
