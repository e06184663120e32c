SPECIFICATION Spec
CONSTANTS
  Widths <- MCWidths
  Aligns <- MCAligns
  Spaces <- MCSpaces
  MaxUpdates = 6
INVARIANTS Emit
CHECK_DEADLOCK FALSE
