SPECIFICATION MSpec
CONSTANTS
  Vals = {0, 1, 2, 9}
  Chars = {97, 98, 233, 37, 95, 92}
  LikeStr = 4
  LikePat = 5
  RowsMax = 5
  Signed = TRUE
CONSTRAINT MEmit
CHECK_DEADLOCK FALSE
