SPECIFICATION MSpec
CONSTANTS
  Bytes = {0, 3, 127, 128, 255}
  Size = 4
  Chars = {65, 81, 47, 43, 45, 95, 61, 128, 32}
  TextSize = 4
CONSTRAINT MEmit
CHECK_DEADLOCK FALSE
