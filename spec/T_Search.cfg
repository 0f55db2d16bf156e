CONSTANTS
  Init0 <- SearchInit
  Clauses <- SearchClauses
  Upd <- SearchUpd
SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
