SPECIFICATION Spec
CONSTANTS
  Coros = {"c1", "c2", "c3"}
  Rels = {1, 2}
  Modes = {"W", "R"}
  Names = {}
  MaxEnt = 1
  MaxRefs = 1
  MaxList = 2
  Combos = FALSE
  Family = ""
VIEW View
ACTION_CONSTRAINT LogStep
INVARIANTS NoConflict NoneForgotten Waits DeadHasNothing
PROPERTIES Fifo
CHECK_DEADLOCK FALSE
