SPECIFICATION Spec
CONSTANTS
  Windows <- MCWindowsBig
  Widths <- MCWidthsBig
  VbrWidths <- MCVbrWidthsBig
VIEW View
INVARIANTS InWindow CacheIsCurrent ExhaustedIsEnd AlignIsIdempotent
PROPERTY Refines
CHECK_DEADLOCK FALSE
