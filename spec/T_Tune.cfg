CONSTANTS
  Init0 <- TuneInit
  Clauses <- TuneClauses
  Upd <- TuneUpd
SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
