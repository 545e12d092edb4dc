SPECIFICATION Spec
CONSTANTS
  Names = {"u", "v"}
  Secrets = {"", "x", "y"}
  Fronts = {1}
  MaxNow = 3
  ByToken = TRUE
  MCHeads = {"ok", "none"}
  MCPays = {"ok"}
  MCExps = {2, 3}
  MCFrames = {"ok", "four"}
  MCForms = {"ok"}
  MCKeys = {"x", "y"}
  Tokens <- MCTokens
VIEW View
INVARIANTS NoMemory Justified Saved OneEach
PROPERTIES Same Refused
CHECK_DEADLOCK FALSE
