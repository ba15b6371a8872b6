SPECIFICATION Spec
CONSTANTS
  St0 <- TxSt0
  Why <- TxWhy
  Upd <- TxUpd
