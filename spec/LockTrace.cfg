SPECIFICATION TSpec
CONSTANTS
  Coros = {"c1", "c2", "c3", "c4"}
  Rels = {1, 2, 3}
  Modes = {"S", "W", "R", "X", "C"}
  Names = {"n1", "n2"}
  MaxEnt = 9
  MaxRefs = 9
  MaxList = 0
  Combos = FALSE
  Family = ""
VIEW TView
CONSTRAINT TDone
INVARIANTS NoConflict NoneForgotten
CHECK_DEADLOCK FALSE
