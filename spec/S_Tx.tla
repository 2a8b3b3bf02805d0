-------------------------------- MODULE S_Tx --------------------------------
(***************************************************************************)
(* What the code may do: transactions (C12, C13, C14).                     *)
(* The state of a session is the transaction being signed (C13, C14).      *)
(***************************************************************************)
EXTENDS Tx, Obs

\* Fields as the harness gives them: numbers are signed [neg, v]
Num(x) == x.v
NoNeg(xs) == \A j \in 1..Len(xs) : xs[j].neg = 0
InOf(x)  == [txid |-> x.txid, index |-> x.index.v, script |-> x.script, seq |-> x.seq.v]
OutOf(x) == [amount |-> x.amount.v, script |-> x.script]
TxOf(a) == [version |-> a.version.v, lock |-> a.lock.v,
            ins |-> [j \in 1..Len(a.ins) |-> InOf(a.ins[j])],
            outs |-> [j \in 1..Len(a.outs) |-> OutOf(a.outs[j])]]
InFits(x)  == x.index.neg = 0 /\ x.seq.neg = 0 /\ ValidIn(InOf(x))
OutFits(x) == x.amount.neg = 0 /\ ValidOut(OutOf(x))
TxFits(a) ==
  /\ a.version.neg = 0 /\ a.lock.neg = 0
  /\ \A j \in 1..Len(a.ins) : InFits(a.ins[j])
  /\ \A j \in 1..Len(a.outs) : OutFits(a.outs[j])
  /\ ValidTx(TxOf(a))

ObsIn(x)  == [txid |-> OText(HexText(x.txid)), index |-> ONat(x.index), script |-> OBytes(x.script), seq |-> ONat(x.seq)]
ObsOut(x) == [amount |-> ONat(x.amount), script |-> OBytes(x.script)]
ObsTx(t) == [k |-> "tx", version |-> ONat(t.version), lock |-> ONat(t.lock),
             ins |-> [j \in 1..Len(t.ins) |-> ObsIn(t.ins[j])],
             outs |-> [j \in 1..Len(t.outs) |-> ObsOut(t.outs[j])],
             bytes |-> OBytes(TxBytes(t))]

(* C12 *)
TxNew(ev) ==
  IF ~TxFits(ev.a)
  THEN Clause("C12:a field that does not fit, or no inputs or outputs, is refused", Refused(ev.r))
  ELSE LET t == TxOf(ev.a)
           b == TxBytes(t)
       IN  Clause("C12:fields and bytes of a transaction", ev.r = ObsTx(t))
           \cup Clause("C12:hex of a transaction", ev.hex = OText(HexText(b)))
           \cup Clause("C12:id of a transaction", ev.id = OText(TxId(t)))
           \cup Clause("C12:parsing a serialization gives the transaction", ev.back = ObsTx(t) /\ ev.same = OBool(TRUE))
           \cup Clause("C12:the id is usable as tx_id", ev.spend = OBytes(Hash256(b) \o Times(0, 5) \o Times(255, 4)))
           \cup Clause("C12:bytes of each input and output",
                  /\ ev.inbytes = OList([j \in 1..Len(t.ins) |-> OBytes(InBytes(t.ins[j]))])
                  /\ ev.outbytes = OList([j \in 1..Len(t.outs) |-> OBytes(OutBytes(t.outs[j]))])
                  /\ ev.inhex = OList([j \in 1..Len(t.ins) |-> OText(HexText(InBytes(t.ins[j])))])
                  /\ ev.outhex = OList([j \in 1..Len(t.outs) |-> OText(HexText(OutBytes(t.outs[j])))]))
TxParse(ev) ==
  LET p == ParseTx(ev.a.b) IN
  IF ~p.ok THEN Clause("C12:bytes that are no transaction are refused", Refused(ev.r))
  ELSE IF ~ScriptsParse(p.v) THEN {}
  ELSE Clause("C12:Transaction.from_bytes", ev.r = ObsTx(p.v))
InParse(ev) ==
  LET p == ParseIn(ev.a.b) IN
  IF ~p.ok THEN Clause("C12:bytes that are no input are refused", Refused(ev.r))
  ELSE IF ~ParseScript(p.v.script).ok THEN {}
  ELSE Clause("C12:Input.from_bytes", ev.r = [k |-> "in", f |-> ObsIn(p.v), bytes |-> OBytes(InBytes(p.v))])
OutParse(ev) ==
  LET p == ParseOut(ev.a.b) IN
  IF ~p.ok THEN Clause("C12:bytes that are no output are refused", Refused(ev.r))
  ELSE IF ~ParseScript(p.v.script).ok THEN {}
  ELSE Clause("C12:Output.from_bytes", ev.r = [k |-> "out", f |-> ObsOut(p.v), bytes |-> OBytes(OutBytes(p.v))])

(* --------------------------- C13, C14: signing -------------------------- *)
(* The session's header describes the transaction: for every input its     *)
(* kind ("address", "multisig", "script"), for an address input the public *)
(* key, for a multisig input the public keys and the number of signatures, *)
(* for a script input its redeem script; st.ins[i].script is the           *)
(* placeholder until the input is signed.                                  *)
Placeholder(x) ==
  CASE x.kind = "address"  -> ScriptBytes(P2pkhOut(Hash160(x.pub)))
    [] x.kind = "multisig" -> ScriptBytes(Multisig(x.pubs, x.m))
    [] OTHER               -> x.redeem
\* C12: an input or output by the constructor of its kind has the given numbers and its script
MakePart(ev) ==
  LET x == ev.a.x
      locked == CASE x.kind = "address"  -> ScriptBytes(P2pkhOut(x.hash))
                  [] x.kind = "script"   -> ScriptBytes(P2shOut(Hash160(x.redeem)))
                  [] x.kind = "multisig" -> ScriptBytes(P2shOut(Hash160(ScriptBytes(Multisig(x.pubs, x.m)))))
                  [] OTHER               -> ScriptBytes(DataOut(x.data))
  IN  IF ev.a.part = "in"
      THEN LET i == [txid |-> x.txid, index |-> x.index.v, seq |-> x.seq.v, script |-> Placeholder(x)]
           IN  Clause("C12:an input by the constructor of its kind", ev.r = [k |-> "in", f |-> ObsIn(i), bytes |-> OBytes(InBytes(i))])
      ELSE LET o == [amount |-> x.amount.v, script |-> locked]
           IN  Clause("C12:an output by the constructor of its kind", ev.r = [k |-> "out", f |-> ObsOut(o), bytes |-> OBytes(OutBytes(o))])
Tx_Start(h) ==
  IF "ins" \notin DOMAIN h THEN [h |-> 0]
  ELSE [ h |-> h,
         signed |-> [j \in 1..Len(h.ins) |-> FALSE],
         tx |-> [ version |-> h.version.v, lock |-> h.lock.v,
                  ins |-> [j \in 1..Len(h.ins) |->
                             [txid |-> h.ins[j].txid, index |-> h.ins[j].index.v, seq |-> h.ins[j].seq.v,
                              script |-> Placeholder(h.ins[j])]],
                  outs |-> [j \in 1..Len(h.outs) |-> OutOf(h.outs[j])] ] ]

\* ev.a: index (from 0), keys: the public keys (SEC bytes) of the private keys passed, type: hash type
\* ev.r: the transaction returned; ev.before: the original transaction afterwards
SigsOf(is, n) == [j \in 1..n |-> is[j].data]
\* DER part valid for the key and hash, low S, and the hash type byte at the end
GoodSig(sig, pub, hash, type) ==
  /\ Len(sig) > 9 /\ Last(sig) = type
  /\ SigValidFor(Front(sig), pub, hash)
\* Is script the standard one, with signatures of the keys in the given order, over hash?
GoodScript(x, script, keys, hash, type) ==
  LET p == ParseScript(script) IN
  /\ p.ok
  /\ CASE x.kind = "address" ->
            /\ Len(p.v) = 2 /\ p.v[1].push
            /\ p.v = P2pkhIn(p.v[1].data, keys[1])
            /\ GoodSig(p.v[1].data, keys[1], hash, type)
       [] OTHER ->
            LET n == Len(keys)
                sigs == [j \in 1..n |-> p.v[j + 1].data]
                redeem == Placeholder(x)
            IN  /\ Len(p.v) = n + 2 /\ \A j \in 2..(n + 2) : p.v[j].push
                /\ p.v = P2shIn(sigs, redeem)
                /\ IF x.kind = "multisig"
                   THEN \* every key signed, and the multisig check accepts
                        /\ \A j \in 1..n : \E k \in 1..n : GoodSig(sigs[k], keys[j], hash, type)
                        /\ MatchInOrder(sigs, x.pubs, LAMBDA s, pk : GoodSig(s, pk, hash, type))
                   ELSE \A j \in 1..n : GoodSig(sigs[j], keys[j], hash, type)
\* Keys that may sign: as many as needed; for multisig distinct keys of the input
IsDistinct(q) == \A j, k \in 1..Len(q) : j # k => q[j] # q[k]
Authorised(x, keys) ==
  CASE x.kind = "address"  -> Len(keys) = 1 /\ Hash160(keys[1]) = Hash160(x.pub)
    [] x.kind = "multisig" -> Len(keys) = x.m /\ IsDistinct(keys) /\ \A j \in 1..Len(keys) : keys[j] \in RangeOf(x.pubs)
    [] OTHER               -> TRUE
CountOk(x, keys) ==
  CASE x.kind = "address" -> Len(keys) = 1
    [] x.kind = "multisig" -> Len(keys) = x.m
    [] OTHER -> TRUE

OnlyScriptChanged(t, i, r) ==
  /\ r.k = "tx" /\ Len(r.ins) = Len(t.ins) /\ r.ins[i].script.k = "bytes"
  /\ r = ObsTx(WithScript(t, i, r.ins[i].script.v))
Sign(st, ev) ==
  LET t == st.tx
      i == ev.a.index + 1
  IN
    Clause("C13:signing leaves the original transaction alone", ev.before = ObsTx(t))
    \cup
    (IF ev.a.index \notin 0..(Len(t.ins) - 1)
     THEN Clause("C13:an index outside the transaction is refused", Refused(ev.r))
     ELSE IF st.signed[i] THEN {}
     ELSE LET x == st.h.ins[i]  keys == ev.a.keys  type == ev.a.type IN
          IF ~CountOk(x, keys)
          THEN Clause("C13:a wrong number of keys is refused", Refused(ev.r))
               \cup Clause("C14:a wrong number of keys is refused", Refused(ev.r))
          ELSE IF x.kind = "script" /\ keys = << >> THEN {}
          ELSE IF x.kind = "multisig" /\ ~Authorised(x, keys) THEN {}
          ELSE LET only == OnlyScriptChanged(t, i, ev.r)
                   hash == SigHash(t, i, t.ins[i].script, type)
                   \* What the code signs for other hash types (known finding): the hash of type ALL,
                   \* with the type at the end
                   allstyle == Hash256(TxBytes([t EXCEPT !.ins = [j \in 1..Len(t.ins) |->
                                        IF j = i THEN t.ins[j] ELSE Blank(t.ins[j])]]) \o << type, 0, 0, 0 >>)
                   script == ev.r.ins[i].script.v
               IN  Clause("C13:signing changes only the script of the input", only)
                   \cup (IF ~only THEN {}
                         ELSE IF type = SIGHASH_ALL
                         THEN LET good == GoodScript(x, script, keys, hash, type) IN
                              Clause("C13:the signed script is standard and its signatures are valid", good)
                              \cup (IF x.kind = "multisig" THEN Clause("C14:the multisig check accepts the signed script", good)
                                    ELSE {})
                         ELSE IF GoodScript(x, script, keys, hash, type) THEN {}
                         ELSE IF GoodScript(x, script, keys, allstyle, type)
                         THEN {"C13:KNOWN signing with another hash type signs the hash of type ALL"}
                         ELSE {"C13:signatures of another hash type are not even over the hash of type ALL"}))
SignAfter(st, ev) ==
  LET i == ev.a.index + 1 IN
  IF ev.a.index \in 0..(Len(st.tx.ins) - 1) /\ ev.r.k = "tx" /\ ev.a.keep
     /\ Len(ev.r.ins) = Len(st.tx.ins) /\ ev.r.ins[i].script.k = "bytes"
  THEN [st EXCEPT !.tx = WithScript(st.tx, i, ev.r.ins[i].script.v), !.signed[i] = TRUE]
  ELSE st
\* ev.a.x: an input as in the header; ev.a.keys: public keys of the private keys passed
CanSign(ev) ==
  IF ev.a.x.kind = "multisig" /\ ~IsDistinct(ev.a.x.pubs) THEN {}
  ELSE Clause("C14:can_sign", ev.r = OBool(Authorised(ev.a.x, ev.a.keys)))

Tx_Failing(st, ev) ==
  CASE ev.op = "tx"        -> TxNew(ev)
    [] ev.op = "tx_parse"  -> TxParse(ev)
    [] ev.op = "make_part" -> MakePart(ev)
    [] ev.op = "in_parse"  -> InParse(ev)
    [] ev.op = "out_parse" -> OutParse(ev)
    [] ev.op = "sign"      -> Sign(st, ev)
    [] ev.op = "can_sign"  -> CanSign(ev)
Tx_After(st, ev) == IF ev.op = "sign" THEN SignAfter(st, ev) ELSE st
=============================================================================
