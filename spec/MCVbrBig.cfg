SPECIFICATION Spec
CONSTANTS
  W = 10
  ChunkWidths = {2, 3, 4, 5, 6, 7, 8, 11}
  MaxBits = 17
INVARIANTS RoundTrip Truncated Faithful SignedView
CHECK_DEADLOCK FALSE
