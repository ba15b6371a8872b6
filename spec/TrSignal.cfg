SPECIFICATION Spec
CONSTANTS
  St0 <- SiSt0
  Why <- SiWhy
  Upd <- SiUpd
