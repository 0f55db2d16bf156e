CONSTANTS
  Init0 <- AuxInit
  Clauses <- AuxClauses
  Upd <- AuxUpd
SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
