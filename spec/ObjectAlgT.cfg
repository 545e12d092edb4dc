SPECIFICATION AlgSpec
CONSTANTS
  Keys = {2, 4, 6, 8, 10, 12, 14}
  Looks = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}
  Pers = {1, 2, 3, 4}
  Tails = {}
  MaxBranches = 1
  WithHeap = TRUE
VIEW View
INVARIANTS SearchRight MergeRight OnceEach
CHECK_DEADLOCK FALSE
