CONSTANTS
  Init0 <- BatchInit
  Clauses <- BatchClauses
  Upd <- BatchUpd
SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
