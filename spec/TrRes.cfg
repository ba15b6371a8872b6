SPECIFICATION Spec
CONSTANTS
  St0 <- RsSt0
  Why <- RsWhy
  Upd <- RsUpd
