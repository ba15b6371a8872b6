CONSTANTS
  PROCS = {1, 2}
  XS = {0, 1, 3}
  N1 = 2
  N2 = 2
  DMAX = 2
SPECIFICATION Spec
INVARIANTS Honest Right
