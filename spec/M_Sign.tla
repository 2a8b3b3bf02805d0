------------------------------- MODULE M_Sign -------------------------------
(***************************************************************************)
(* Model for C13: a transaction whose inputs are signed one after another, *)
(* in any order, with wrong attempts in between.  The hash an input signs  *)
(* does not depend on which others have been signed, so that every input   *)
(* that was signed stays valid, and the end result depends only on who     *)
(* signed, not on the order.  Every history is emitted and replayed.       *)
(***************************************************************************)
EXTENDS Tx, Json
CONSTANTS MaxIns, MaxCalls
VARIABLES kinds, nouts, tx, signed, hist
vars == << kinds, nouts, tx, signed, hist >>

Kinds == {"address", "multisig", "script"}
Code(k, j) == CASE k = "address"  -> ScriptBytes(P2pkhOut(Times(j, 20)))
                [] k = "multisig" -> ScriptBytes(Multisig(<< Times(2, 33), Times(3, 33) >>, 1))
                [] OTHER          -> << 81, j >>
Fresh(ks, n) == [ version |-> << 1 >>, lock |-> << >>,
               ins |-> [j \in 1..Len(ks) |-> [txid |-> Times(j, 32), index |-> BNOf(j), seq |-> Times(255, 4), script |-> Code(ks[j], j)]],
               outs |-> [j \in 1..n |-> [amount |-> BNOf(j), script |-> << 81 >>]] ]
\* Stands for the script with the signatures: determined by the hash that is signed
SignedScript(h, j) == ScriptBytes(<< PushOf(h \o << j >>) >>)

Init == /\ kinds \in UNION {[1..n -> Kinds] : n \in 1..MaxIns} /\ nouts \in 1..2
        /\ tx = Fresh(kinds, nouts) /\ signed = {} /\ hist = << >>
Do(what, j) == hist' = Append(hist, << what, j >>)
Next == /\ Len(hist) < MaxCalls
        /\ UNCHANGED << kinds, nouts >>
        /\ \/ \E j \in 1..Len(kinds) :
                /\ j \notin signed
                /\ tx' = [tx EXCEPT !.ins[j].script = SignedScript(SigHash(tx, j, tx.ins[j].script, 1), j)]
                /\ signed' = signed \cup {j} /\ Do("sign", j - 1)
           \/ \E j \in {0, Len(kinds) + 1} : UNCHANGED << tx, signed >> /\ Do("outside", j - 1)
           \/ \E j \in 1..Len(kinds) : j \notin signed /\ kinds[j] # "script" /\ UNCHANGED << tx, signed >> /\ Do("count", j - 1)
           \/ \E j \in 1..Len(kinds) : j \notin signed /\ UNCHANGED << tx, signed >> /\ Do("drop", j - 1)
Spec == Init /\ [][Next]_vars

\* What input j has to sign, from the unsigned transaction alone
Unsigned == Fresh(kinds, nouts)
HashOf(j) == SigHash(Unsigned, j, Unsigned.ins[j].script, 1)
SignaturesStayValid == \A j \in signed : tx.ins[j].script = SignedScript(HashOf(j), j)
HashIndependent == \A j \in 1..Len(kinds) : j \notin signed => SigHash(tx, j, Code(kinds[j], j), 1) = HashOf(j)
OnlyTheScripts ==
  /\ [tx EXCEPT !.ins = << >>] = [Unsigned EXCEPT !.ins = << >>]
  /\ \A j \in 1..Len(kinds) : Blank(tx.ins[j]) = Blank(Unsigned.ins[j])
  /\ \A j \in 1..Len(kinds) : j \notin signed => tx.ins[j] = Unsigned.ins[j]
HashesDistinct == \A i, j \in 1..Len(kinds) : i # j => HashOf(i) # HashOf(j)
Emit == Len(hist) = MaxCalls =>
  PrintT("@" \o ToJson([op |-> "history", kinds |-> kinds, nouts |-> nouts,
                        calls |-> [k \in 1..Len(hist) |-> [what |-> hist[k][1], j |-> hist[k][2]]]]))
=============================================================================
