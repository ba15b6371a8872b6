SPECIFICATION Spec
CONSTANTS
  St0 <- TlSt0
  Why <- TlWhy
  Upd <- TlUpd
