SPECIFICATION Spec
CONSTANTS
  PROCS = 2
  SIZES = {3, 4}
  VALS = {0, 1}
INVARIANTS Sorted Counts NothingInFlight
PROPERTY Terminates
