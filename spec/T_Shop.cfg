CONSTANTS
  Init0 <- ShopInit
  Clauses <- ShopClauses
  Upd <- ShopUpd
SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
