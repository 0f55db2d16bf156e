CONSTANTS
  Init0 <- ArriveInit
  Clauses <- ArriveClauses
  Upd <- ArriveUpd
SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
