SPECIFICATION Spec
CONSTANTS
  St0 <- RaSt0
  Why <- RaWhy
  Upd <- RaUpd
