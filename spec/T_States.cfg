CONSTANTS
  Init0 <- StatesInit
  Clauses <- StatesClauses
  Upd <- StatesUpd
SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
