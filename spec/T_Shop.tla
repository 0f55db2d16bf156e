------------------------------- MODULE T_Shop -------------------------------
EXTENDS TraceRun, Shop
=============================================================================
