CONSTANTS
  Init0 <- BufferInit
  Clauses <- BufferClauses
  Upd <- BufferUpd
SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
