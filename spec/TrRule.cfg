SPECIFICATION Spec
CONSTANTS
  St0 <- RuSt0
  Why <- RuWhy
  Upd <- RuUpd
