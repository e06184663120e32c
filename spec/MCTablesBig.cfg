SPECIFICATION Spec
CONSTANTS
  Widths <- MCWidths
  Aligns <- MCAligns
  Spaces <- MCSpaces
  MaxUpdates = 3
VIEW View
INVARIANTS Sorted Latest PrefNotBelowAbi TypeBeforeIsTotal
CHECK_DEADLOCK FALSE
