CONSTANTS
  Init0 <- SameInit
  Clauses <- SameClauses
  Upd <- SameUpd
SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
