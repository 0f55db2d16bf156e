------------------------------ MODULE T_Aux ------------------------------
EXTENDS TraceRun, Aux
=============================================================================
