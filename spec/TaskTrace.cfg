SPECIFICATION TSpec
CONSTANTS
  Coros = {"c1", "c2", "c3", "c4", "c5", "c6"}
  Events = {"e1", "e2", "e3", "e4", "e5"}
  Locals = {"e3"}
  ParentOf <- P4
  Threads = {"t1", "t2", "t3", "t4"}
VIEW TView
CONSTRAINT TDone
CHECK_DEADLOCK FALSE
