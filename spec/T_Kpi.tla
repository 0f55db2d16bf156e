------------------------------ MODULE T_Kpi ------------------------------
EXTENDS TraceRun, Kpi
=============================================================================
