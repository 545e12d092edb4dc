SPECIFICATION MSpec
CONSTANTS
  Storages = {}
  Dbs = {}
  Tables = {"t1"}
  Cols = {"v", "a"}
  Indexes = {}
  Tiers = {}
  Fns = {}
  Vals = {"x"}
  MaxOps = 1
  MaxCols = 3
  MaxTabs = 1
  Family = "col"
  Rich = FALSE
VIEW View
ACTION_CONSTRAINT LogStep
INVARIANTS NamesUnique NoDangling OneIdentity
PROPERTIES AbortRestores RefusedKeeps
CHECK_DEADLOCK FALSE
