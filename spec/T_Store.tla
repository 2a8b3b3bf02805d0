------------------------------- MODULE T_Store -------------------------------
EXTENDS S_Store, TraceBase
=============================================================================
