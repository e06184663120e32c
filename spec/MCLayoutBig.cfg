SPECIFICATION Spec
CONSTANTS
  Alphabet <- MCAll
  MaxSpecs = 3
INVARIANTS ErrorsAre Settings Commute Emit
CHECK_DEADLOCK FALSE
