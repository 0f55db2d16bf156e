------------------------------ MODULE T_Policy ------------------------------
EXTENDS TraceRun, Policy
=============================================================================
