SPECIFICATION SSpec
CONSTANTS
  Storages = {"s1", "s2", "s3"}
  Dbs = {"d1", "d2"}
  Tables = {"t1", "t2", "t3"}
  Cols = {"a", "b", "c"}
  Indexes = {"i1", "i2", "i3"}
  Tiers = {"r1", "r2"}
  Fns = {"f1", "f2", "t1"}
  Vals = {"", "x", "y"}
  MaxOps = 3
  MaxCols = 6
  MaxTabs = 4
  Family = "sim"
  Rich = FALSE
CONSTRAINT SimEmit
INVARIANTS NamesUnique NoDangling OneIdentity
CHECK_DEADLOCK FALSE
