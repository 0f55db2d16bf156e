CONSTANTS
  Init0 <- FlowInit
  Clauses <- FlowClauses
  Upd <- FlowUpd
SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
