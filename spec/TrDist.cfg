SPECIFICATION Spec
CONSTANTS
  St0 <- DiSt0
  Why <- DiWhy
  Upd <- DiUpd
