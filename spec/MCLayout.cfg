SPECIFICATION Spec
CONSTANTS
  Alphabet <- MCAll
  MaxSpecs = 2
INVARIANTS ErrorsAre Settings Commute Emit
CHECK_DEADLOCK FALSE
