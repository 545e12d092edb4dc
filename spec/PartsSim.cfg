SPECIFICATION SSpec
CONSTANTS
  MaxCrash = 30
  VolIds = {0, 1, 2}
  FileIds = {1, 2, 3, 4, 5, 6, 9}
CONSTRAINT SimEmit
CHECK_DEADLOCK FALSE
