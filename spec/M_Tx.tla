-------------------------------- MODULE M_Tx --------------------------------
(***************************************************************************)
(* Model for C12: transactions put together input by input and output by   *)
(* output from small sets of fields.  Reading the wire format gives the    *)
(* transaction back, no strict prefix is a transaction, the wire format is *)
(* injective (the id commits to every field).  Every one is emitted and    *)
(* replayed on the real code.                                              *)
(***************************************************************************)
EXTENDS Tx, Json
CONSTANTS MaxIns, MaxOuts
VARIABLES tx, done
vars == << tx, done >>

FF4 == Times(255, 4)
Id1 == [j \in 1..32 |-> j]
Scripts == { << >>, << 81 >>, << 2, 0, 253 >>, Times(97, 253) }
InsSet == { [txid |-> id, index |-> x, seq |-> s, script |-> sc] :
              id \in {Id1, Times(0, 32)}, x \in {<< >>, << 1, 0 >>, FF4}, s \in {FF4, << >>}, sc \in Scripts }
OutsSet == { [amount |-> a, script |-> sc] : a \in {<< >>, << 1 >>, Times(255, 8)}, sc \in Scripts }
Heads == { [version |-> v, lock |-> l, ins |-> << >>, outs |-> << >>] :
             v \in {<< 1 >>, << >>, FF4}, l \in {<< >>, << 29, 205, 101, 0 >>, FF4} }
Base == [version |-> << 1 >>, lock |-> << >>, ins |-> << >>, outs |-> << >>]

Init == tx \in Heads /\ done = FALSE
Small == Len(tx.ins) + Len(tx.outs) < 2 \/ (tx.version = << 1 >> /\ tx.lock = << >>)
Next == \/ /\ ~done /\ tx.outs = << >> /\ Len(tx.ins) < MaxIns /\ Small
           /\ \E x \in InsSet : tx' = [tx EXCEPT !.ins = Append(@, x)]
           /\ UNCHANGED done
        \/ /\ ~done /\ tx.ins # << >> /\ Len(tx.outs) < MaxOuts
           /\ \E x \in OutsSet : tx' = [tx EXCEPT !.outs = Append(@, x)]
           /\ UNCHANGED done
Spec == Init /\ [][Next]_vars

Complete == ValidTx(tx)
RoundTrip == Complete => ParseTx(TxBytes(tx)) = Yes(tx)
NoPrefix == Complete =>
  LET b == TxBytes(tx) IN \A k \in 0..(Len(b) - 1) : (k < 60 \/ k > Len(b) - 30 \/ k % 37 = 0) => ~ParseTx(SubSeq(b, 1, k)).ok
TrailingRefused == Complete => \A x \in {0, 1, 255} : ~ParseTx(Append(TxBytes(tx), x)).ok
Parts == Complete => \A j \in 1..Len(tx.ins) : ParseIn(InBytes(tx.ins[j])).v = tx.ins[j]
IdIsReversed == Complete => ParseHex(TxId(tx)) = Yes(Rev(Hash256(TxBytes(tx))))
Signed(n) == [neg |-> 0, v |-> n]
Emit == Complete =>
  PrintT("@" \o ToJson([op |-> "tx", version |-> Signed(tx.version), lock |-> Signed(tx.lock),
    ins |-> [j \in 1..Len(tx.ins) |-> [txid |-> tx.ins[j].txid, index |-> Signed(tx.ins[j].index), seq |-> Signed(tx.ins[j].seq), script |-> tx.ins[j].script]],
    outs |-> [j \in 1..Len(tx.outs) |-> [amount |-> Signed(tx.outs[j].amount), script |-> tx.outs[j].script]]]))
=============================================================================
