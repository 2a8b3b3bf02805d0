-------------------------------- MODULE Obs --------------------------------
(***************************************************************************)
(* Observations.  Whatever a call to the implementation returns or raises  *)
(* is projected by the harness (harness/obs.py) to a record with a kind k, *)
(* so that two observations can always be compared:                        *)
(*   [k |-> "bytes", v |-> << bytes >>]      bytes, bytearray, Buffer      *)
(*   [k |-> "text",  v |-> << code points >>]                              *)
(*   [k |-> "int", neg |-> 0 or 1, v |-> << big-endian magnitude >>]       *)
(*   [k |-> "bool",  v |-> << 0 or 1 >>]                                   *)
(*   [k |-> "none",  v |-> << >>]                                          *)
(*   [k |-> "float", v |-> << 8 bytes of the IEEE 754 double >>]           *)
(*   [k |-> "list",  items |-> << observations >>]                         *)
(*   [k |-> "obj",   t |-> class, f |-> record of observations]            *)
(*   [k |-> "err",   is |-> << public error classes >>, msg |-> ...]       *)
(*   [k |-> "other", v |-> << >>]            anything else                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences

OBytes(b) == [k |-> "bytes", v |-> b]
OText(t)  == [k |-> "text", v |-> t]
OInt(neg, b) == [k |-> "int", neg |-> neg, v |-> b]
ONat(b)   == OInt(0, b)
OBool(p)  == [k |-> "bool", v |-> << IF p THEN 1 ELSE 0 >>]
ONone     == [k |-> "none", v |-> << >>]
OList(s)  == [k |-> "list", items |-> s]

IsErr(r)  == r.k = "err"
IsHang(r) == r.k = "err" /\ \E j \in 1..Len(r.is) : r.is[j] = "Hang"
ErrIs(r, class) == r.k = "err" /\ \E j \in 1..Len(r.is) : r.is[j] = class
ErrIn(r, classes) == r.k = "err" /\ \E j \in 1..Len(r.is) : r.is[j] \in classes
\* A refusal: any exception other than running out of time
Refused(r) == r.k = "err" /\ ~IsHang(r)

\* Named check: the set of names of the clauses that fail
Clause(name, ok) == IF ok THEN {} ELSE {name}
=============================================================================
