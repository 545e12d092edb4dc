SPECIFICATION SSpec
CONSTRAINT SimEmit
CHECK_DEADLOCK FALSE
