SPECIFICATION Spec
CONSTANTS
  Docs <- MCDocsBig
  Offsets <- MCOffsets
  Paddings <- MCPaddings
INVARIANTS BothOpen Same
CHECK_DEADLOCK FALSE
