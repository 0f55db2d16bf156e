CONSTANTS
  Init0 <- InterruptInit
  Clauses <- InterruptClauses
  Upd <- InterruptUpd
SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
