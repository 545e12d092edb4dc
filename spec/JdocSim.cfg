SPECIFICATION SSpec
CONSTANTS
  Slots = 4
CONSTRAINT SimEmit
INVARIANTS RoundTrip TotalOrder
CHECK_DEADLOCK FALSE
