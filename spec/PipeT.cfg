SPECIFICATION Spec
CONSTANTS
  Keys = {1, 2}
  Vals = {1, 2}
  MaxPrep = 3
  MaxOps = 2
  MaxIds = 3
VIEW View
ACTION_CONSTRAINT LogStep
INVARIANTS OnlyCommitted Undoable InOrder
CHECK_DEADLOCK FALSE
