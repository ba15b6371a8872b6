SPECIFICATION Spec
CONSTANTS
  MAXH = 5
INVARIANTS Agree NoDangling Nothing Once
