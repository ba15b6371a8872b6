SPECIFICATION Spec
CONSTANTS
  NP = 3
  MAXCH = 2
  MAXFAIL = 3
INVARIANTS Matched Reported FinalisedOk
PROPERTY Terminates
