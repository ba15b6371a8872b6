SPECIFICATION Spec
CONSTANTS
  N = 3
  PROCS = 2
  ELT = 2
  VALS = {1, 2}
INVARIANTS InWindow AsArray
