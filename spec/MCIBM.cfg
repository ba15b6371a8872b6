SPECIFICATION Spec
CONSTANTS
  FB = 8
  EB = 2
  IB = 3
INVARIANT Nearest
