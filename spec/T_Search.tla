------------------------------- MODULE T_Search -------------------------------
EXTENDS TraceRun, Search
=============================================================================
