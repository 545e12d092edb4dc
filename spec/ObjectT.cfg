SPECIFICATION Spec
CONSTANTS
  Keys = {2, 4, 6, 8}
  Looks = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}
  Pers = {1, 2, 3}
  Tails = {}
  MaxBranches = 2
  WithHeap = FALSE
VIEW View
ACTION_CONSTRAINT LogStep
INVARIANTS SearchRight MergeRight OnceEach
CHECK_DEADLOCK FALSE
