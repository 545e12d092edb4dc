SPECIFICATION SSpec
CONSTANTS
  Keys = {2, 4, 6, 8, 10, 12, 14, 16, 18, 20}
  Looks = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21}
  Pers = {1, 2, 3, 4, 10}
  Tails = {1, 2, 3, 4, 5}
  MaxBranches = 5
  WithHeap = TRUE
CONSTRAINT SimEmit
CHECK_DEADLOCK FALSE
