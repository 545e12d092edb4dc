SPECIFICATION MSpec
CONSTANTS
  Kinds = {"date", "year", "moment", "zone", "text", "move", "wrap", "iset", "iget", "uuid"}
  Years = 0
  SomeYears = {1, 2, 3, 4, 5, 99, 100, 101, 400, 401, 1582, 1600, 1752, 1900, 1901, 1968, 1969, 1970, 1971, 1972, 1999, 2000, 2001, 2023, 2024, 2037, 2038, 2039, 2100, 2104, 2400, 9996, 9998, 9999}
CONSTRAINT MEmit
CHECK_DEADLOCK FALSE
