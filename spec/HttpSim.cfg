SPECIFICATION SSpec
CONSTANTS
  Limit = 512
  Kinds = {"ok", "huge", "badlen", "nospace", "nomethod", "nourl", "noversion", "oneword", "nocolon", "tight", "cr", "crhead"}
  Sizes = {0, 1, 2, 5, 255, 256, 257, 1000, 5000, 16383, 16384, 16385, 40000}
  Lims = {0, 1, 16384, 50000}
  Aheads = {1, 7, 100, 255, 256, 257, 300, 512, 4096, 16384}
  Segs = {1, 3, 50, 255, 256, 257, 511, 600, 5000, 100000}
CONSTRAINT SimEmit
CHECK_DEADLOCK FALSE
