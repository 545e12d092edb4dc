SPECIFICATION SSpec
CONSTANTS
  Keys = {1, 2, 3, 4, 5}
  Vals = {1, 2, 3}
  MaxPrep = 6
  MaxOps = 4
  MaxIds = 1000
CONSTRAINT SimEmit
INVARIANTS OnlyCommitted Undoable InOrder
CHECK_DEADLOCK FALSE
