SPECIFICATION MSpec
CONSTANTS
  Storages = {}
  Dbs = {}
  Tables = {}
  Cols = {}
  Indexes = {}
  Tiers = {}
  Fns = {"f1", "f2"}
  Vals = {}
  MaxOps = 2
  MaxCols = 2
  MaxTabs = 1
  Family = "fn"
  Rich = FALSE
VIEW View
ACTION_CONSTRAINT LogStep
INVARIANTS NamesUnique NoDangling OneIdentity
PROPERTIES AbortRestores RefusedKeeps
CHECK_DEADLOCK FALSE
