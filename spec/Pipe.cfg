SPECIFICATION Spec
CONSTANTS
  Keys = {1, 2}
  Vals = {1}
  MaxPrep = 3
  MaxOps = 1
  MaxIds = 4
VIEW View
ACTION_CONSTRAINT LogStep
INVARIANTS OnlyCommitted Undoable InOrder
CHECK_DEADLOCK FALSE
