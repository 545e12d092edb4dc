SPECIFICATION MSpec
CONSTANTS
  Limit = 4
  Piece = 2
  Ahead = 4
  Heads = {2, 3, 4, 5, 6, 7}
  Contents = {0, 1, 2, 5}
  MaxMsgs = 2
  Lims = {0, 3}
  Exact = TRUE
INVARIANTS Right Own Bounded
CHECK_DEADLOCK FALSE
