SPECIFICATION MSpec
CONSTANTS
  Slots = {1, 2, 3}
  Pool <- Small
  Schemas = {1, 3}
  MaxSeq = 1
VIEW View
INVARIANTS Order Lower Kept
CHECK_DEADLOCK FALSE
