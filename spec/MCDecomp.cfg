SPECIFICATION Spec
CONSTANTS
  MaxN = 40
  MaxP = 12
INVARIANTS Partition Owner
