SPECIFICATION MSpec
CONSTANTS
  Kinds = {"date", "year", "moment", "zone", "text", "move", "wrap", "iset", "iget", "uuid"}
  Years = 7
  SomeYears = {1, 4, 100, 400, 1900, 1969, 1970, 1972, 2000, 2023, 2024, 2100, 9999}
CONSTRAINT MEmit
CHECK_DEADLOCK FALSE
