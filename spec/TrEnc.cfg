SPECIFICATION Spec
CONSTANTS
  St0 <- EnSt0
  Why <- EnWhy
  Upd <- EnUpd
