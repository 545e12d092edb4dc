SPECIFICATION SSpec
CONSTANTS
  Ids = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}
  Classes = {1, 2, 3, 4}
  MaxPeak = 12
  Steps = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}
  Fields = {"header", "data", "size", "cut"}
  WithSnap = FALSE
CONSTRAINT SimEmit
INVARIANTS Disjoint Bounded SnapStored NothingKept LruExact
CHECK_DEADLOCK FALSE
