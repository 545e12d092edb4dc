SPECIFICATION SSpec
CONSTANTS
  Conf <- SimConf
  Kept <- SimKept
  Fixed = {"version", "directory", "lsn", "psn", "rsn", "catalog", "catalog_pending", "read_only", "connections", "writes", "ops"}
  Toks = {"true", "false", "zero", "five", "big", "neg", "huge", "real", "word", "odd", "empty", "list", "null", "novalue"}
  Crashes = {1, 2, 3, 4, 5, 6, 7}
  Fails = {"create", "open", "write", "rename", "unlink", "sync"}
  MaxArgs = 3
CONSTRAINT SimEmit
INVARIANTS AllTyped
CHECK_DEADLOCK FALSE
