SPECIFICATION Spec
CONSTANTS
  Coros = {"c1", "c2", "c3"}
  Rels = {1}
  Modes = {"S", "X"}
  Names = {"n1"}
  MaxEnt = 1
  MaxRefs = 2
  MaxList = 0
  Combos = TRUE
  Family = ""
VIEW View
ACTION_CONSTRAINT LogStep
INVARIANTS NoConflict NoneForgotten Waits DeadHasNothing
PROPERTIES Fifo
CHECK_DEADLOCK FALSE
