CONSTANTS
  Init0 <- ReconInit
  Clauses <- ReconClauses
  Upd <- ReconUpd
SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
