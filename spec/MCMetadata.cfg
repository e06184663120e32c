SPECIFICATION Spec
CONSTANTS
  Alphabet <- MCAll
  MaxMore = 2
  HostTriple = "host"
INVARIANTS Accepted Reports Emit
CHECK_DEADLOCK FALSE
