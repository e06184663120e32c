SPECIFICATION Spec
CONSTANTS
  Alphabet <- MCAll
  MaxAttrs = 3
INVARIANTS RoundTrip Truncated OtherCodes Emit
CHECK_DEADLOCK FALSE
