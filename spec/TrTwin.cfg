SPECIFICATION Spec
CONSTANTS
  St0 <- TwSt0
  Why <- TwWhy
  Upd <- TwUpd
