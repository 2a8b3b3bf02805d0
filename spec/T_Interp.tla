------------------------------ MODULE T_Interp ------------------------------
EXTENDS S_Interp, TraceBase
=============================================================================
