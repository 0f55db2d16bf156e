---- MODULE T_Buffer ----
EXTENDS TraceRun, Buffer
====
