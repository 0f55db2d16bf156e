------------------------------ MODULE T_Repro ------------------------------
EXTENDS TraceRun, Repro
=============================================================================
