SPECIFICATION Spec
CONSTANTS
  Forms <- FormsAll
  Size = 2
INVARIANTS Agree CountMatters Emit
CHECK_DEADLOCK FALSE
