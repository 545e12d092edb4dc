SPECIFICATION Spec
CONSTANTS
  Takers = {"a", "b"}
  Raisers = {1, 2}
  Takes = 3
  Raise <- RaiseOf
  Atomic = TRUE
INVARIANTS NeverRepeats AboveRaised
CHECK_DEADLOCK FALSE
