SPECIFICATION MSpec
CONSTANTS
  Storages = {}
  Dbs = {}
  Tables = {"t1"}
  Cols = {}
  Indexes = {"i1", "i2"}
  Tiers = {}
  Fns = {}
  Vals = {}
  MaxOps = 2
  MaxCols = 2
  MaxTabs = 1
  Family = "idx"
  Rich = FALSE
VIEW View
ACTION_CONSTRAINT LogStep
INVARIANTS NamesUnique NoDangling OneIdentity
PROPERTIES AbortRestores RefusedKeeps
CHECK_DEADLOCK FALSE
