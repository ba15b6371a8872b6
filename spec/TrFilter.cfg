SPECIFICATION Spec
CONSTANTS
  St0 <- FiSt0
  Why <- FiWhy
  Upd <- FiUpd
