------------------------------- MODULE T_Op -------------------------------
EXTENDS S_Op, TraceBase
=============================================================================
