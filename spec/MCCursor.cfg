SPECIFICATION Spec
CONSTANTS
  Windows <- MCWindows
  Widths <- MCWidths
  VbrWidths <- MCVbrWidths
VIEW View
INVARIANTS InWindow CacheIsCurrent ExhaustedIsEnd AlignIsIdempotent
PROPERTY Refines
CHECK_DEADLOCK FALSE
