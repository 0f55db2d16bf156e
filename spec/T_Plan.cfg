CONSTANTS
  Init0 <- PlanInit
  Clauses <- PlanClauses
  Upd <- PlanUpd
SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
