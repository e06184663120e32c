SPECIFICATION Spec
CONSTANTS
  Alphabet <- MCAll
  MaxAttrs = 2
INVARIANTS RoundTrip Truncated OtherCodes Emit
CHECK_DEADLOCK FALSE
