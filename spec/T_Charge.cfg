CONSTANTS
  Init0 <- ChargeInit
  Clauses <- ChargeClauses
  Upd <- ChargeUpd
SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
