SPECIFICATION Spec
CONSTANTS
  St0 <- DfSt0
  Why <- DfWhy
  Upd <- DfUpd
