------------------------------- MODULE T_Mal -------------------------------
EXTENDS S_Mal, TraceBase
=============================================================================
