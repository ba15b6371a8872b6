SPECIFICATION Spec
CONSTANTS
  St0 <- SgSt0
  Why <- SgWhy
  Upd <- SgUpd
