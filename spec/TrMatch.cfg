SPECIFICATION Spec
CONSTANTS
  St0 <- MtSt0
  Why <- MtWhy
  Upd <- MtUpd
