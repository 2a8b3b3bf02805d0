------------------------------- MODULE M_Der --------------------------------
(***************************************************************************)
(* Model for C18: byte strings put together field by field like a          *)
(* signature in a transaction, with at most Budget departures from the     *)
(* strict form.  The definition used by the specification (the one         *)
(* encoding of a pair of numbers) is the algorithm of BIP66 on all of      *)
(* them.  Every string is emitted and given to the real code's validator.  *)
(***************************************************************************)
EXTENDS Tx, Json
CONSTANTS Budget, Bodies
VARIABLES stage, left, f
vars == << stage, left, f >>

SmallBodies == { << >>, << 0 >>, << 1 >>, << 127 >>, << 128 >>, << 0, 0 >>, << 0, 127 >>, << 0, 128 >>, << 1, 0 >>, << 128, 0 >>,
                 << 0, 0, 128 >>, << 255, 1 >>, << 127 >> \o Times(255, 31), << 0 >> \o Times(255, 32), Times(255, 32), Times(1, 33), Times(5, 35) }
MoreBodies == SmallBodies \cup { Times(1, 34), Times(2, 36), Times(2, 60), Times(0, 33), << 0, 1 >> \o Times(255, 31), << 0, 128 >> \o Times(0, 31), Times(9, 66) }

\* name of the field, usual value, other values
Fields == << << "tag", 48, {49, 2, 0, 176} >>,
             << "dlen", 0, {-1, 1, 2, 128} >>,
             << "rtag", 2, {3, 0, 130} >>,
             << "drl", 0, {-1, 1, 128} >>,
             << "stag", 2, {3, 0, 130} >>,
             << "dsl", 0, {-1, 1, 128} >>,
             << "tail", 0, {1, 2} >>,
             << "ht", 1, {0, 2, 255} >>,
             << "cut", 0, {1, 2, 3} >> >>

Init == stage = 0 /\ left = Budget /\ f \in { [r |-> a, s |-> b] : a \in Bodies, b \in Bodies }
Next == /\ stage < Len(Fields)
        /\ stage' = stage + 1
        /\ LET x == Fields[stage + 1] IN
           \/ left' = left /\ f' = (x[1] :> x[2]) @@ f
           \/ left > 0 /\ left' = left - 1 /\ \E v \in x[3] : f' = (x[1] :> v) @@ f
Spec == Init /\ [][Next]_vars

Done == stage = Len(Fields)
Bytes ==
  LET body == << f.rtag, (Len(f.r) + f.drl + 256) % 256 >> \o f.r \o << f.stag, (Len(f.s) + f.dsl + 256) % 256 >> \o f.s
      all  == << f.tag, (Len(body) + f.dlen + 256) % 256 >> \o body \o Times(0, f.tail) \o << f.ht >>
  IN  SubSeq(all, 1, Len(all) - f.cut)

\* BIP66, line by line
Bip66(g) ==
  /\ Len(g) \in 9..73
  /\ g[1] = 48 /\ g[2] = Len(g) - 3
  /\ LET lr == g[4] IN
     /\ 5 + lr < Len(g)
     /\ LET ls == g[6 + lr] IN
        /\ lr + ls + 7 = Len(g)
        /\ g[3] = 2 /\ lr # 0 /\ g[5] < 128
        /\ ~(lr > 1 /\ g[5] = 0 /\ g[6] < 128)
        /\ g[lr + 5] = 2 /\ ls # 0 /\ g[lr + 7] < 128
        /\ ~(ls > 1 /\ g[lr + 7] = 0 /\ g[lr + 8] < 128)

Agrees == Done => (StrictSig(Bytes) <=> Bip66(Bytes))
\* What is read is written the same way, and a reader that is not strict reads the same numbers
Exact == Done => LET d == ParseDer(Front(Bytes)) IN
                 d.ok => DerSig(d.v.r, d.v.s) = Front(Bytes) /\ LooseDer(Front(Bytes)) = d
Emit == Done => PrintT("@" \o ToJson([op |-> "format", b |-> Bytes]))
=============================================================================
