-------------------------------- MODULE T_Mix -------------------------------
(***************************************************************************)
(* Recorded executions that mix calls of all areas (C28): the header of a  *)
(* session names its area, and each area has its own specification.        *)
(***************************************************************************)
EXTENDS TraceBase
Codec == INSTANCE S_Codec
Keys == INSTANCE S_Keys
Script == INSTANCE S_Script
Tx == INSTANCE S_Tx
Interp == INSTANCE S_Interp
Sig == INSTANCE S_Sig
HD == INSTANCE S_HD
Ec == INSTANCE S_Ec
Unit == INSTANCE S_Unit
Uri == INSTANCE S_Uri
Mal == INSTANCE S_Mal
Util == INSTANCE S_Util
Op == INSTANCE S_Op
Net == INSTANCE S_Net

Mix_Start(h) ==
  [area |-> h.area,
   st |-> CASE h.area = "codec" -> Codec!Codec_Start(h.h)
          [] h.area = "tx" -> Tx!Tx_Start(h.h)
          [] h.area = "hd" -> HD!HD_Start(h.h)
          [] OTHER -> 0]
Mix_After(x, ev) ==
  [x EXCEPT !.st = CASE x.area = "codec" -> Codec!Codec_After(x.st, ev)
          [] x.area = "tx" -> Tx!Tx_After(x.st, ev)
          [] x.area = "hd" -> HD!HD_After(x.st, ev)
          [] OTHER -> 0]
Broken(x, ev) ==
  CASE x.area = "codec" -> Codec!Codec_Failing(x.st, ev)
    [] x.area = "keys" -> Keys!Keys_Failing(x.st, ev)
    [] x.area = "script" -> Script!Script_Failing(x.st, ev)
    [] x.area = "tx" -> Tx!Tx_Failing(x.st, ev)
    [] x.area = "interp" -> Interp!Interp_Failing(x.st, ev)
    [] x.area = "sig" -> Sig!Sig_Failing(x.st, ev)
    [] x.area = "hd" -> HD!HD_Failing(x.st, ev)
    [] x.area = "ec" -> Ec!Ec_Failing(x.st, ev)
    [] x.area = "unit" -> Unit!Unit_Failing(x.st, ev)
    [] x.area = "uri" -> Uri!Uri_Failing(x.st, ev)
    [] x.area = "mal" -> Mal!Mal_Failing(x.st, ev)
    [] x.area = "util" -> Util!Util_Failing(x.st, ev)
    [] x.area = "op" -> Op!Op_Failing(x.st, ev)
    [] x.area = "net" -> Net!Net_Failing(x.st, ev)
Mix_Failing(x, ev) == { "C28:" \o n : n \in Broken(x, ev) }
=============================================================================
