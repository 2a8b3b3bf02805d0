------------------------------- MODULE T_Net -------------------------------
EXTENDS S_Net, TraceBase
=============================================================================
