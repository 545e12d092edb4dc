SPECIFICATION SSpec
CONSTANTS
  Pay = {1, 2, 3, 4, 5}
  MaxLsn = 40
  MaxGroup = 4
  NSlots = 3
  Injections = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12,
    13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24}
  WithFork = TRUE
  WithRace = FALSE
CONSTRAINT SimEmit
INVARIANTS Contiguous
CHECK_DEADLOCK FALSE
