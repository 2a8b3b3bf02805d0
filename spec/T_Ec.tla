------------------------------- MODULE T_Ec -------------------------------
EXTENDS S_Ec, TraceBase
=============================================================================
