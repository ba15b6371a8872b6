SPECIFICATION Spec
CONSTANTS
  NP = 4
  NG = 2
  MAXL = 2
  WRONG = 0
INVARIANTS OwnResults NothingLeft
CHECK_DEADLOCK TRUE
