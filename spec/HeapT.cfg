SPECIFICATION Spec
CONSTANTS
  Ids = {1, 2, 3, 4}
  Classes = {1, 2}
  MaxPeak = 2
  Steps = {4}
  Fields = {"header", "data", "size", "cut"}
VIEW View
ACTION_CONSTRAINT LogStep
INVARIANTS Disjoint Bounded SnapStored NothingKept LruExact
PROPERTIES SnapFixed
CHECK_DEADLOCK FALSE
