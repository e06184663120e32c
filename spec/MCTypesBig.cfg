SPECIFICATION Spec
CONSTANTS
  Depth = 2
INVARIANTS OnlyLegal PredicatesAgree OperationsAgree Emit
CHECK_DEADLOCK FALSE
