SPECIFICATION SSpec
CONSTANTS
  Slots = {1, 2, 3, 4, 5}
  Pool <- Full16
CONSTRAINT SimEmit
CHECK_DEADLOCK FALSE
