------------------------------ MODULE T_Codec -------------------------------
EXTENDS S_Codec, TraceBase
=============================================================================
