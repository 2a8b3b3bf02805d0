------------------------------- MODULE T_Keys -------------------------------
EXTENDS S_Keys, TraceBase
=============================================================================
