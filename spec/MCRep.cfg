SPECIFICATION Spec
CONSTANTS
  MaxF = 14
  MaxB = 4
  MaxP = 3
  MaxRep = 3
  H = 2
  MaxLim = 2
INVARIANTS Right Disjoint
PROPERTY Ends
