------------------------------ MODULE T_States ------------------------------
EXTENDS TraceRun, States
=============================================================================
