------------------------------ MODULE T_Log ------------------------------
EXTENDS TraceRun, Log
=============================================================================
