SPECIFICATION Spec
CONSTANTS
  Slots = 7
  N = 3
  Vols = {0, 1}
  MaxId = 6
  MaxG = 1
  Resume = TRUE
  Clean = TRUE
INVARIANTS CutOK DoneOK
PROPERTIES EndOK
CHECK_DEADLOCK FALSE
