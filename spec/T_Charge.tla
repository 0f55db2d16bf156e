------------------------------ MODULE T_Charge ------------------------------
EXTENDS TraceRun, Charge
=============================================================================
