SPECIFICATION Spec
CONSTANTS
  Widths <- MCWidthsSmall
  Aligns <- MCAlignsSmall
  Spaces <- MCSpaces
  MaxUpdates = 2
INVARIANTS Emit
CHECK_DEADLOCK FALSE
