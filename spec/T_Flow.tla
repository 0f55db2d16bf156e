------------------------------- MODULE T_Flow -------------------------------
EXTENDS TraceRun, Flow
=============================================================================
