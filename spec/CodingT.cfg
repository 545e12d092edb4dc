SPECIFICATION MSpec
CONSTANTS
  Bytes = {0, 3, 85, 127, 128, 240, 255}
  Size = 5
  Chars = {65, 81, 47, 43, 45, 95, 61, 128, 32, 195}
  TextSize = 5
CONSTRAINT MEmit
CHECK_DEADLOCK FALSE
