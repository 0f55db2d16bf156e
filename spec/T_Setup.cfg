CONSTANTS
  Init0 <- SetupInit
  Clauses <- SetupClauses
  Upd <- SetupUpd
SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
