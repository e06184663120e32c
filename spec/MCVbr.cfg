SPECIFICATION Spec
CONSTANTS
  W = 7
  ChunkWidths = {2, 3, 4, 5, 8}
  MaxBits = 12
INVARIANTS RoundTrip Truncated Faithful SignedView
CHECK_DEADLOCK FALSE
