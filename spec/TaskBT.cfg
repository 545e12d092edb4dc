SPECIFICATION Spec
CONSTANTS
  Coros = {"c1", "c2"}
  Events = {"e1", "e2", "e3", "e4"}
  Locals = {"e3"}
  ParentOf <- P1
  Threads = {"t1"}
  Timeouts <- TB
  Kinds = {"wait", "kill", "time", "pause"}
  MaxPause = 1
  MaxGen = 1
  Combos = TRUE
VIEW View
ACTION_CONSTRAINT LogStep
INVARIANTS Restful NothingPending JoinersWait OneWaiter
CHECK_DEADLOCK FALSE
