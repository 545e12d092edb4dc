SPECIFICATION TSpec
VIEW TView
CONSTANTS
  Heads = {"none", "key", "str", "num"}
  Tokens = {"a", "1", ":", ",", "QU", ".", "e", "BS", "[", "]", "{", "}", "null"}
  Size = 5
  Keys = {}
  Weight = 0
CONSTRAINT TEmit
INVARIANTS TRound
CHECK_DEADLOCK FALSE
