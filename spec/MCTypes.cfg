SPECIFICATION Spec
CONSTANTS
  Depth = 1
INVARIANTS OnlyLegal PredicatesAgree OperationsAgree Emit
CHECK_DEADLOCK FALSE
