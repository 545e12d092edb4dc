SPECIFICATION MSpec
CONSTANTS
  Vals = {0, 1, 2, 3}
  Bool = {0, 1}
VIEW View
CONSTRAINT Small
INVARIANTS Durable Above
PROPERTIES NoClash
CHECK_DEADLOCK FALSE
