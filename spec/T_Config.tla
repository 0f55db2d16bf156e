------------------------------ MODULE T_Config ------------------------------
EXTENDS TraceRun, Config
=============================================================================
