SPECIFICATION Spec
CONSTANTS
  St0 <- FaSt0
  Why <- FaWhy
  Upd <- FaUpd
