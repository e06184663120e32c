SPECIFICATION Spec
CONSTANTS
  Ids <- MCNestIds
  Tops <- MCTops
  MaxEntries = 14
  MaxDepth = 3
INVARIANTS Emit
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Seldom
