------------------------------- MODULE T_Recon -------------------------------
EXTENDS TraceRun, Recon
=============================================================================
