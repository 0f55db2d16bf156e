------------------------------- MODULE T_Same -------------------------------
EXTENDS TraceRun, Same
=============================================================================
