---- MODULE T_Interrupt ----
EXTENDS TraceRun, Interrupt
====
