SPECIFICATION Spec
CONSTANTS
  Ids <- None
  Tops <- MCTopsMore
  MaxEntries = 22
  MaxDepth = 1
INVARIANTS AsDeclared
CHECK_DEADLOCK FALSE
