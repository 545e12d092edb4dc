SPECIFICATION Spec
CONSTANTS
  Coros = {"c1", "c2"}
  Events = {"e1", "e3"}
  Locals = {"e3"}
  ParentOf <- P1
  Threads = {"t1"}
  Timeouts <- TA
  Kinds = {"wait", "sleep", "kill", "time", "pause"}
  MaxPause = 2
  MaxGen = 2
  Combos = FALSE
VIEW View
ACTION_CONSTRAINT LogStep
INVARIANTS Restful NothingPending JoinersWait OneWaiter
CHECK_DEADLOCK FALSE
