SPECIFICATION Spec
CONSTANTS
  MAXACC = 4
  MAXFAIL = 5
INVARIANTS Steady Nothing Once
