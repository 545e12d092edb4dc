SPECIFICATION SSpec
CONSTANTS
  Keys = {2, 4, 6, 8, 10, 12, 14, 16, 18, 20}
  Looks = {0, 2, 4, 6, 7, 8, 9, 10, 12, 14, 16, 18, 20}
  Pers = {}
  Tails = {1, 2, 3, 4, 5}
  MaxBranches = 5
  WithHeap = TRUE
CONSTRAINT SimEmit
CHECK_DEADLOCK FALSE
