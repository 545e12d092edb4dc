SPECIFICATION SSpec
CONSTANTS
  Names = {"n1", "n2", "n3", "n4", "n5", "n6"}
  Secrets = {"", "s1", "s2", "s3", "s4", "s5"}
  Fronts = {1, 2}
  MaxNow = 100
  ByToken = TRUE
  Tokens = {}
CONSTRAINT SimEmit
INVARIANTS Saved OneEach
CHECK_DEADLOCK FALSE
