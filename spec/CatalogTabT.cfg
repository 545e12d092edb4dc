SPECIFICATION MSpec
CONSTANTS
  Storages = {}
  Dbs = {"d1"}
  Tables = {"t1", "t2"}
  Cols = {}
  Indexes = {}
  Tiers = {}
  Fns = {}
  Vals = {}
  MaxOps = 1
  MaxCols = 2
  MaxTabs = 2
  Family = "tab"
  Rich = FALSE
VIEW View
ACTION_CONSTRAINT LogStep
INVARIANTS NamesUnique NoDangling OneIdentity
PROPERTIES AbortRestores RefusedKeeps
CHECK_DEADLOCK FALSE
