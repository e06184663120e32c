SPECIFICATION Spec
CONSTANTS
  Ids <- MCNestIds
  Tops <- None
  MaxEntries = 7
  MaxDepth = 3
INVARIANTS AsDeclared
CHECK_DEADLOCK FALSE
