CONSTANTS
  Init0 <- PolicyInit
  Clauses <- PolicyClauses
  Upd <- PolicyUpd
SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
