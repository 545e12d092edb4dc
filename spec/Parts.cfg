SPECIFICATION Spec
CONSTANTS
  Slots = 7
  N = 2
  Vols = {0, 1}
  MaxId = 4
  MaxG = 1
  Resume = TRUE
  Clean = TRUE
INVARIANTS CutOK DoneOK
PROPERTIES EndOK
CHECK_DEADLOCK FALSE
