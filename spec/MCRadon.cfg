CONSTANTS
  PROCS = {1, 2, 3}
  MAXG = 4
  SIZES = {1, 2}
  MAXN = 2
  GRID = 4
SPECIFICATION Spec
INVARIANTS SameCall NoClash RightRead Right
