SPECIFICATION Spec
CONSTANTS
  St0 <- DcSt0
  Why <- DcWhy
  Upd <- DcUpd
