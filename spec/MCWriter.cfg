SPECIFICATION Spec
CONSTANTS
  NP = 2
  MAXT = 3
  STEPS = 3
INVARIANTS ExactSize Contents NoTail
