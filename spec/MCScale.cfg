SPECIFICATION Spec
CONSTANTS
  LIM = 9
  MAXV = 99
  E = 2
INVARIANT HalfUnit
INVARIANT ExactIfPossible
