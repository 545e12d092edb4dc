SPECIFICATION SSpec
CONSTANTS
  Keys = {1, 2, 3, 4, 5}
  Secs = {1, 2, 3, 4, 5}
  Vals = {1, 2, 3}
  MaxOps = 8
CONSTRAINT SimEmit
CHECK_DEADLOCK FALSE
