------------------------------ MODULE T_Progress ------------------------------
EXTENDS TraceRun, Progress
=============================================================================
