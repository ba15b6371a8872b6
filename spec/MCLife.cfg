SPECIFICATION Spec
CONSTANTS
  STEPS = 8
INVARIANTS Once Consistent Usable Tidy Own
