SPECIFICATION Spec
CONSTANTS
  St0 <- FlSt0
  Why <- FlWhy
  Upd <- FlUpd
