CONSTANTS
  Init0 <- LogInit
  Clauses <- LogClauses
  Upd <- LogUpd
SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
