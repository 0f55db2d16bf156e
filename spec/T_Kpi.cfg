CONSTANTS
  Init0 <- KpiInit
  Clauses <- KpiClauses
  Upd <- KpiUpd
SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
