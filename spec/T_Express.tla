---------------------------- MODULE T_Express ----------------------------
EXTENDS TraceRun, Express
=============================================================================
