SPECIFICATION Spec
CONSTANTS
  NT = 6
  PROCS = 3
  LINES = {1, 2, 3}
INVARIANTS AsSerial Length
