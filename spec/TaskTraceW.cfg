SPECIFICATION TSpec
CONSTANTS
  Coros = {"c1", "c2", "c3", "c4", "c5", "c6", "c7", "c8", "c9", "c10", "c11", "c12", "c13", "c14", "c15", "c16", "c17", "c18", "c19", "c20", "c21", "c22", "c23", "c24"}
  Events = {"e1", "e2", "e3", "e4", "e5"}
  Locals = {"e3"}
  ParentOf <- P4
  Threads = {"t1", "t2", "t3", "t4"}
VIEW TView
CONSTRAINT TDone
CHECK_DEADLOCK FALSE
