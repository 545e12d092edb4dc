SPECIFICATION Spec
CONSTANTS
  Coros = {"c1", "c2", "c3"}
  Events = {"e1"}
  Locals = {"e3"}
  ParentOf <- P1
  Threads = {"t1"}
  Timeouts <- TC
  Kinds = {"rpc", "kill"}
  MaxPause = 0
  MaxGen = 1
  Combos = FALSE
VIEW View
ACTION_CONSTRAINT LogStep
INVARIANTS Restful NothingPending JoinersWait OneWaiter
CHECK_DEADLOCK FALSE
