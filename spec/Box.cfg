SPECIFICATION BSpec
CONSTANTS
  Nodes = {0, 1, 2, 3, 4, 5, 6}
  Hashes = 5
  TreeKeys = {1, 2, 3, 4, 5, 6, 7, 8, 9}
  IdVals = {1, 2, 4, 7}
  Items = {0, 1, 2, 3, 4}
VIEW View
ACTION_CONSTRAINT LogStep
INVARIANT Sorted
CHECK_DEADLOCK FALSE
