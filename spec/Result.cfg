SPECIFICATION MSpec
CONSTANTS
  Vals = {0, 1, 2, 9}
  Chars = {97, 98, 37, 95, 92}
  LikeStr = 4
  LikePat = 4
  RowsMax = 4
  Signed = TRUE
CONSTRAINT MEmit
CHECK_DEADLOCK FALSE
