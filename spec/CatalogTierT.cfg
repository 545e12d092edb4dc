SPECIFICATION MSpec
CONSTANTS
  Storages = {"s1", "s2"}
  Dbs = {}
  Tables = {"t1"}
  Cols = {}
  Indexes = {}
  Tiers = {"r1", "r2"}
  Fns = {}
  Vals = {}
  MaxOps = 2
  MaxCols = 2
  MaxTabs = 1
  Family = "tier"
  Rich = FALSE
VIEW View
ACTION_CONSTRAINT LogStep
INVARIANTS NamesUnique NoDangling OneIdentity
PROPERTIES AbortRestores RefusedKeeps
CHECK_DEADLOCK FALSE
