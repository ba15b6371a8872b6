SPECIFICATION Spec
CONSTANTS
  P = 2
  MaxAmt = 4
  Limit = 3
  MaxEsz = 3
INVARIANTS Exact Matched NoneStranded
PROPERTY Terminates
