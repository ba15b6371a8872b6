SPECIFICATION Spec
CONSTANTS
  St0 <- CmSt0
  Why <- CmWhy
  Upd <- CmUpd
