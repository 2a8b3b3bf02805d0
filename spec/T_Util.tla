------------------------------- MODULE T_Util -------------------------------
EXTENDS S_Util, TraceBase
=============================================================================
