SPECIFICATION Spec
CONSTANTS
  Conf <- MCConf
  Kept <- MCKept
  Fixed = {"lsn"}
  Toks = {"true", "zero", "five", "word", "null"}
  Crashes = {1}
  Fails = {"write"}
  MaxArgs = 1
VIEW View
INVARIANTS AllTyped
PROPERTIES ReadBack Refused
CHECK_DEADLOCK FALSE
