CONSTANTS
  Init0 <- ExpressInit
  Clauses <- ExpressClauses
  Upd <- ExpressUpd
SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
