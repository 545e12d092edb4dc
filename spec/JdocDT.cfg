SPECIFICATION DSpec
VIEW DView
CONSTANTS
  Heads = {}
  Tokens = {}
  Size = 0
  Keys = {"a", "b"}
  Weight = 4
CONSTRAINT Small
ACTION_CONSTRAINT LogStep
INVARIANTS RoundTrip TotalOrder Laws
CHECK_DEADLOCK FALSE
