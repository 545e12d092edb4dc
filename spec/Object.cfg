SPECIFICATION Spec
CONSTANTS
  Keys = {2, 4, 6}
  Looks = {0, 1, 2, 3, 4, 5, 6, 7}
  Pers = {1, 2}
  Tails = {}
  MaxBranches = 2
  WithHeap = FALSE
VIEW View
ACTION_CONSTRAINT LogStep
INVARIANTS SearchRight MergeRight OnceEach
CHECK_DEADLOCK FALSE
