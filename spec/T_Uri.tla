------------------------------- MODULE T_Uri -------------------------------
EXTENDS S_Uri, TraceBase
=============================================================================
