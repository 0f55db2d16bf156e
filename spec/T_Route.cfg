CONSTANTS
  Init0 <- RouteInit
  Clauses <- RouteClauses
  Upd <- RouteUpd
SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
