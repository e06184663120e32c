SPECIFICATION Spec
CONSTANTS
  Lengths = {4, 5, 8, 9, 12, 15, 16, 17, 20, 23}
  MaxOps = 14
INVARIANTS Emit
CHECK_DEADLOCK FALSE
