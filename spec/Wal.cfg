SPECIFICATION Spec
CONSTANTS
  Pay = {1}
  MaxLsn = 3
  MaxGroup = 2
  NSlots = 1
  Injections = {4, 11}
VIEW View
ACTION_CONSTRAINT LogStep
INVARIANTS Contiguous
PROPERTIES Kept FailLeavesNothing GcSafe CursorExact
CHECK_DEADLOCK FALSE
