---- MODULE T_Move ----
EXTENDS TraceRun, Move
====
