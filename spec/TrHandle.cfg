SPECIFICATION Spec
CONSTANTS
  St0 <- HdSt0
  Why <- HdWhy
  Upd <- HdUpd
