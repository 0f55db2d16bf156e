---- MODULE T_Rework ----
EXTENDS TraceRun, Rework
====
