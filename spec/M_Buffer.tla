------------------------------ MODULE M_Buffer ------------------------------
(***************************************************************************)
(* Model for C07: the Buffer as a byte queue.  Every program of Depth      *)
(* calls over a small set of calls; put and got are ghost variables for    *)
(* everything written and everything read.                                 *)
(***************************************************************************)
EXTENDS Codec, Json
CONSTANTS Depth
VARIABLES pend, put, got, calls
vars == << pend, put, got, calls >>

Chunks == { << >>, << 7 >>, << 253 >>, << 253, 1, 2 >>, << 254, 1, 0 >>, << 0, 255 >> }
Call(op, a) == calls' = Append(calls, [op |-> op, a |-> a])

Init == pend = << >> /\ put = << >> /\ got = << >> /\ calls = << >>
Write == \E c \in Chunks :
           /\ pend' = pend \o c /\ put' = put \o c /\ UNCHANGED got
           /\ Call("buf_write", [b |-> c])
Read == \E n \in {0, 1, 2, 4} :
          /\ IF n <= Len(pend)
             THEN pend' = SubSeq(pend, n + 1, Len(pend)) /\ got' = got \o SubSeq(pend, 1, n)
             ELSE UNCHANGED << pend, got >>
          /\ UNCHANGED put /\ Call("buf_read", [n |-> n])
ReadVarInt ==
  /\ IF VarIntAvailable(pend)
     THEN /\ pend' = VarIntRest(pend)
          /\ got' = got \o SubSeq(pend, 1, 1 + VarIntWidth(pend[1]))
     ELSE UNCHANGED << pend, got >>
  /\ UNCHANGED put /\ Call("buf_varint", [n |-> 0])
Next == Len(calls) < Depth /\ (Write \/ Read \/ ReadVarInt)
Spec == Init /\ [][Next]_vars

\* Nothing is lost, duplicated or reordered
Fifo == got \o pend = put
Emit == Len(calls) = Depth => PrintT("@" \o ToJson([op |-> "buffer", calls |-> calls]))
=============================================================================
