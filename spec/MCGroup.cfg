SPECIFICATION Spec
CONSTANTS
  Ids <- None
  Tops <- MCTopsMore
  MaxEntries = 16
  MaxDepth = 1
INVARIANTS AsDeclared Emit
CHECK_DEADLOCK FALSE
