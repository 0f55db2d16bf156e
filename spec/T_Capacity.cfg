CONSTANTS
  Init0 <- CapacityInit
  Clauses <- CapacityClauses
  Upd <- CapacityUpd
SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
