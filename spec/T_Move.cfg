CONSTANTS
  Init0 <- MoveInit
  Clauses <- MoveClauses
  Upd <- MoveUpd
SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
