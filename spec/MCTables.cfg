SPECIFICATION Spec
CONSTANTS
  Widths <- MCWidthsSmall
  Aligns <- MCAlignsSmall
  Spaces <- MCSpaces
  MaxUpdates = 3
VIEW View
INVARIANTS Sorted Latest PrefNotBelowAbi TypeBeforeIsTotal
CHECK_DEADLOCK FALSE
