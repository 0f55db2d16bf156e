---- MODULE T_Capacity ----
EXTENDS TraceRun, Capacity
====
