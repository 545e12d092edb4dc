SPECIFICATION MSpec
CONSTANTS
  Limit = 4
  Piece = 2
  Ahead = 3
  Heads = {2, 4, 5, 6}
  Contents = {0, 3}
  MaxMsgs = 2
  Lims = {0, 3}
  Exact = TRUE
INVARIANTS Right Own Bounded
CHECK_DEADLOCK FALSE
