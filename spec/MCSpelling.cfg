SPECIFICATION Spec
CONSTANTS
  BlockIds = {8, 17}
  Widths = {3}
  Records = {}
  Abbrevs <- MCAbbrevs
  Lengths = {1}
  MaxDepth = 3
  HostTriple = "host"
  Contents <- OnlySmall
  Extras = 1
INVARIANTS Means
CHECK_DEADLOCK FALSE
