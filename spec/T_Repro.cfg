CONSTANTS
  Init0 <- ReproInit
  Clauses <- ReproClauses
  Upd <- ReproUpd
SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
