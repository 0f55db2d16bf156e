CONSTANTS
  Init0 <- ConfigInit
  Clauses <- ConfigClauses
  Upd <- ConfigUpd
SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
