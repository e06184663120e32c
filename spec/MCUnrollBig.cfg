SPECIFICATION Spec
CONSTANTS
  Ids <- MCNestIds
  Tops <- None
  MaxEntries = 10
  MaxDepth = 4
INVARIANTS AsDeclared
CHECK_DEADLOCK FALSE
