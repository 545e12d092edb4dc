SPECIFICATION MSpec
VIEW View
CONSTANTS
  Heads = {"http", "amelie", "none", "v1"}
  Tokens = {"a", "1", ":", "@", "/", "?", "format", "[", "]", "%", "&"}
  Size = 4
CONSTRAINT MEmit
INVARIANTS RoundTrip
CHECK_DEADLOCK FALSE
