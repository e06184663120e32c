SPECIFICATION Spec
CONSTANTS
  Docs <- MCDocsSmall
  Offsets <- MCOffsets
  Paddings <- MCPaddings
INVARIANTS BothOpen Same
CHECK_DEADLOCK FALSE
