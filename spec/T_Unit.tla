------------------------------- MODULE T_Unit -------------------------------
EXTENDS S_Unit, TraceBase
=============================================================================
