------------------------------ MODULE T_Flow -----------------------------
EXTENDS S_Flow, TraceBase
=============================================================================
