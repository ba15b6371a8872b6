SPECIFICATION Spec
CONSTANTS
  St0 <- FdSt0
  Why <- FdWhy
  Upd <- FdUpd
