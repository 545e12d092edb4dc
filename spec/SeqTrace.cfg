SPECIFICATION TSpec
CONSTANTS
  Threads = {1, 2, 3, 4}
VIEW TView
CONSTRAINT TDone
INVARIANTS Durable
CHECK_DEADLOCK FALSE
