------------------------------- MODULE T_Tune -------------------------------
EXTENDS TraceRun, Tune
=============================================================================
