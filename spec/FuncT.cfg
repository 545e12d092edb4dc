SPECIFICATION MSpec
CONSTANTS
  Chars = {97, 66, 32, 233, 128512}
  TextMax = 4
  RxChars = {97, 98, 233}
  RxText = 4
CONSTRAINT MEmit
CHECK_DEADLOCK FALSE
