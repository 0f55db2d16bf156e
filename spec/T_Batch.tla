------------------------------ MODULE T_Batch ------------------------------
EXTENDS TraceRun, Batch
=============================================================================
