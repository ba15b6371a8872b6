CONSTANTS
  DS = {8, 10, 15, 20, 25, 30, 40, 45, 50, 60}
  NS = {1, 2, 3, 4}
  NB = {1, 2, 3}
SPECIFICATION Spec
INVARIANTS Shape Ends Const Mirror Gains
