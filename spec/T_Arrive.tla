------------------------------ MODULE T_Arrive ------------------------------
EXTENDS TraceRun, Arrive
=============================================================================
