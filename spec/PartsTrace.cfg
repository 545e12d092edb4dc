SPECIFICATION TSpec
CONSTANTS
  Slots = 8192
VIEW TView
CONSTRAINT TDone
CHECK_DEADLOCK FALSE
