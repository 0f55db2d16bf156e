CONSTANTS
  Init0 <- ProgressInit
  Clauses <- ProgressClauses
  Upd <- ProgressUpd
SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
