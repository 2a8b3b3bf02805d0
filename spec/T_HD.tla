------------------------------- MODULE T_HD -------------------------------
EXTENDS S_HD, TraceBase
=============================================================================
