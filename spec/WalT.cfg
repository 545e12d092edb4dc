SPECIFICATION Spec
CONSTANTS
  Pay = {1, 2}
  MaxLsn = 4
  MaxGroup = 2
  NSlots = 1
  Injections = {4, 7, 11}
VIEW View
ACTION_CONSTRAINT LogStep
INVARIANTS Contiguous
PROPERTIES Kept FailLeavesNothing GcSafe CursorExact
CHECK_DEADLOCK FALSE
