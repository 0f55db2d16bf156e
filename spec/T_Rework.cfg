CONSTANTS
  Init0 <- ReworkInit
  Clauses <- ReworkClauses
  Upd <- ReworkUpd
SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
