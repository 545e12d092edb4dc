SPECIFICATION MSpec
CONSTANTS
  Slots = {1, 2}
  Pool <- Small
  Schemas = {1, 2, 3, 4}
  MaxSeq = 2
VIEW View
ACTION_CONSTRAINT LogStep
INVARIANTS Order Lower Kept
CHECK_DEADLOCK FALSE
