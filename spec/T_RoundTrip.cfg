CONSTANTS
  Init0 <- RoundTripInit
  Clauses <- RoundTripClauses
  Upd <- RoundTripUpd
SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
