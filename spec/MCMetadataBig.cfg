SPECIFICATION Spec
CONSTANTS
  Alphabet <- MCSome
  MaxMore = 4
  HostTriple = "host"
INVARIANTS Accepted Reports
CHECK_DEADLOCK FALSE
