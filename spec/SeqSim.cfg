SPECIFICATION SSpec
CONSTRAINT SimEmit
INVARIANTS Durable Above
CHECK_DEADLOCK FALSE
