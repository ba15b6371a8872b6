SPECIFICATION Spec
CONSTANTS
  M = {1, 2, 3, 4}
  T = {1, 2}
  STEPS = 7
INVARIANT Slots
INVARIANT Selected
