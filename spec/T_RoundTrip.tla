---------------------------- MODULE T_RoundTrip ----------------------------
EXTENDS TraceRun, RoundTrip
=============================================================================
