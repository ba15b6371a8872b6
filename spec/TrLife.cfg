SPECIFICATION Spec
CONSTANTS
  St0 <- LfSt0
  Why <- LfWhy
  Upd <- LfUpd
