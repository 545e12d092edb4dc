SPECIFICATION Spec
CONSTANTS
  Keys = {1, 2}
  Secs = {1, 2}
  Vals = {1, 2}
  MaxOps = 3
VIEW View
ACTION_CONSTRAINT LogStep
INVARIANTS TypeOK Unique IdleIsBase RedoReproduces
PROPERTIES AbortRestores
CHECK_DEADLOCK FALSE
