---- MODULE T_Setup ----
EXTENDS TraceRun, Setup
====
