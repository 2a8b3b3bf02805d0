------------------------------ MODULE T_Script -------------------------------
EXTENDS S_Script, TraceBase
=============================================================================
