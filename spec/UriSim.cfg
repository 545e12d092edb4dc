SPECIFICATION SSpec
CONSTRAINT SimEmit
INVARIANTS RoundTrip
CHECK_DEADLOCK FALSE
