SPECIFICATION AlgSpec
CONSTANTS
  Keys = {2, 4, 6}
  Looks = {0, 2, 3, 7}
  Pers = {1}
  Tails = {}
  MaxBranches = 3
  WithHeap = TRUE
VIEW View
INVARIANTS MergeRight OnceEach
CHECK_DEADLOCK FALSE
