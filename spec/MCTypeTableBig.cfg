SPECIFICATION Spec
CONSTANTS
  Forms <- FormsSmall
  Size = 3
INVARIANTS Agree CountMatters
CHECK_DEADLOCK FALSE
