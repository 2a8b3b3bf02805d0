------------------------------- MODULE T_Sig -------------------------------
EXTENDS S_Sig, TraceBase
=============================================================================
