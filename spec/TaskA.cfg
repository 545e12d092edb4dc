SPECIFICATION Spec
CONSTANTS
  Coros = {"c1", "c2"}
  Events = {"e1"}
  Locals = {"e3"}
  ParentOf <- P1
  Threads = {"t1"}
  Timeouts <- TA
  Kinds = {"wait", "sleep", "kill", "time", "pause"}
  MaxPause = 1
  MaxGen = 2
  Combos = FALSE
VIEW View
ACTION_CONSTRAINT LogStep
INVARIANTS Restful NothingPending JoinersWait OneWaiter
CHECK_DEADLOCK FALSE
