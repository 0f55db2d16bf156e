------------------------------ MODULE T_Route ------------------------------
EXTENDS TraceRun, Route
=============================================================================
