SPECIFICATION Spec
CONSTANTS
  MAXT = 4
  MAXN = 4
INVARIANTS Ascending AsAsked
