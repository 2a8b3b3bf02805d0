------------------------------ MODULE T_Tx -------------------------------
EXTENDS S_Tx, TraceBase
=============================================================================
