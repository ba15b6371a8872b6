SPECIFICATION Spec
CONSTANTS
  St0 <- LgSt0
  Why <- LgWhy
  Upd <- LgUpd
