SPECIFICATION Spec
CONSTANTS
  Coros = {"c1", "c2"}
  Rels = {1, 2}
  Modes = {"W", "R", "X"}
  Names = {}
  MaxEnt = 2
  MaxRefs = 2
  MaxList = 0
  Combos = FALSE
  Family = ""
VIEW View
ACTION_CONSTRAINT LogStep
INVARIANTS NoConflict NoneForgotten Waits DeadHasNothing
PROPERTIES Fifo
CHECK_DEADLOCK FALSE
