---- MODULE T_Plan ----
EXTENDS TraceRun, Plan
====
