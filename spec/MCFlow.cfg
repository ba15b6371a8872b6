SPECIFICATION Spec
CONSTANTS
  PROCS = {1, 2, 3}
  MAXFILES = 2
  MAXNT = 3
  KEYS = {0, 1}
  BLOCKS = {1, 2}
INVARIANTS SameCall NoClash Right
