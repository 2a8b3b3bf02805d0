------------------------------- MODULE M_Flow -------------------------------
(***************************************************************************)
(* Model for C29: a wallet that starts with a seed and an uncompressed     *)
(* key, and makes value after value from what it has.  For every value     *)
(* made: each of its encodings reads back to it; extended keys, private    *)
(* and public keys lead to the same address; the payee of an output is the *)
(* address it was made for; and once an input is signed, by keys that may, *)
(* the script machine lets it spend the coin, whoever signed before or     *)
(* after, and lets it spend nothing else.  The histories are replayed.     *)
(***************************************************************************)
EXTENDS Flow, Json, FiniteSets, SequencesExt
CONSTANT Length
VARIABLES pool, hist, pick
vars == << pool, hist, pick >>
Cur == Len(pool)
Of(kinds) == { j \in 1..Cur : pool[j].k \in kinds }

Call(op, a) == [op |-> op, a |-> a]
TestWif == Wif(<< 9, 8, 7 >>, Testnet, FALSE)
Base == << Call("seed", [b |-> Times(7, 32)]), Call("wif", [t |-> Wif(<< 3 >>, Livenet, FALSE)]),
           Call("pub", [of |-> 2]), Call("addr", [of |-> 3, net |-> T_livenet]), Call("payto", [of |-> 4, amount |-> << 1, 0 >>]),
           Call("tx", [ins |-> << [prev |-> 0, txid |-> Times(17, 32), n |-> 0, seq |-> Times(255, 4), how |-> "address", of |-> << 4 >>, m |-> 1] >>,
                       outs |-> << 5 >>, lock |-> << >>, version |-> << 1 >>]) >>
RECURSIVE RunAll(_, _)
RunAll(calls, p) == IF calls = << >> THEN p ELSE RunAll(Tail(calls), TLCEval(Append(p, Meaning(p, Head(calls).op, Head(calls).a))))

Routes(v) == (IF v.k \in {"x", "priv", "pub", "addr", "script", "out", "tx"} THEN {"copy", "pickle"} ELSE {}) \cup
             CASE v.k = "x" -> {"string", "parts"} [] v.k = "priv" -> {"wif", "hex", "bytes"} [] v.k = "pub" -> {"hex", "bytes"}
               [] v.k = "addr" -> {"string", "hex", "uri"} [] v.k = "script" -> {"hex", "text", "parts"} [] v.k = "out" -> {"hex", "bytes"}
               [] v.k = "tx" -> {"hex", "bytes", "parts"} [] OTHER -> {}
KeyAddrs == { j \in Of({"addr"}) : pool[j].a.type = T_pubkeyhash }
Privs == Of({"priv"})
PubLists == { << j >> : j \in Of({"pub"}) } \cup { q \in { << i, j >> : i, j \in Of({"pub"}) } : Sec(pool[q[1]]) # Sec(pool[q[2]]) }
\* Coins of the pool that some address or key list unlocks
Coins == { c \in { [t |-> t, n |-> n] : t \in Of({"tx"}), n \in 0..2 } : c.n < Len(pool[c.t].t.outs) }
LockOfIn(i) == ScriptBytes(LockOf(HowOf(pool, i)))
Spendings == { i \in { [prev |-> c.t, txid |-> << >>, n |-> c.n, seq |-> s, how |-> w.how, of |-> w.of, m |-> w.m] :
                   c \in Coins, s \in {Times(255, 4)},
                   w \in { [how |-> "address", of |-> << j >>, m |-> 1] : j \in KeyAddrs }
                         \cup { [how |-> "multisig", of |-> q, m |-> m] : q \in PubLists, m \in 1..2 } } :
           (i.how = "multisig" => i.m <= Len(i.of)) /\ pool[i.prev].t.outs[i.n + 1].script = LockOfIn(i) }
Keyed(h) == { q \in { << j >> : j \in Privs } \cup { << i, j >> : i, j \in Privs } :
                MaySign(h, Refs(pool, q)) }

Calls(op) ==
  CASE op = "derive" -> { Call(op, [of |-> j, i |-> i, hardened |-> h]) : j \in { x \in Of({"x"}) : pool[x].x.depth < 3 }, i \in {<< >>, << 5 >>}, h \in {FALSE, TRUE} }
    [] op = "neuter" -> { Call(op, [of |-> j]) : j \in { x \in Of({"x"}) : pool[x].x.priv } }
    [] op = "key"    -> { Call(op, [of |-> j]) : j \in { x \in Of({"x"}) : pool[x].x.priv } }
    [] op = "pub"    -> { Call(op, [of |-> j]) : j \in Of({"x", "priv"}) }
    [] op = "addr"   -> { Call(op, [of |-> j, net |-> T_livenet]) : j \in Of({"priv", "pub", "script"}) }
    [] op = "wif"    -> IF \E j \in Of({"priv"}) : pool[j].net = Testnet THEN {} ELSE { Call(op, [t |-> TestWif]) }
    [] op = "re"     -> UNION { { Call(op, [of |-> j, what |-> pool[j].k, via |-> v]) : v \in Routes(pool[j]) } : j \in 1..Cur }
    [] op = "lock"   -> { Call(op, [of |-> j]) : j \in KeyAddrs \cup Of({"script"}) }
    [] op = "redeem" -> { Call(op, [of |-> q, m |-> m]) : q \in PubLists, m \in {1} }
    [] op = "payto"  -> { Call(op, [of |-> j, amount |-> << 2 >>]) : j \in KeyAddrs \cup Of({"script"}) }
    [] op = "payall" -> { Call(op, [of |-> q, m |-> Len(q), amount |-> << 3, 3 >>]) : q \in PubLists }
    [] op = "payee"  -> { Call(op, [of |-> j, net |-> T_livenet]) : j \in { o \in Of({"out"}) : PayeeOf(pool[o].script, Livenet).k # "none" } }
    [] op = "coin"   -> { Call(op, [of |-> c.t, n |-> c.n]) : c \in Coins }
    [] op = "tx"     -> { Call(op, [ins |-> q, outs |-> SetToSeq(os), lock |-> << >>, version |-> << 1 >>]) :
                            q \in { << i >> : i \in Spendings } \cup { << i, j >> : i, j \in Spendings },
                            os \in { S \in SUBSET Of({"out"}) : Cardinality(S) \in 1..2 } }
    [] op = "sign"   -> UNION { UNION { { Call(op, [of |-> t, index |-> i - 1, keys |-> q]) : q \in IF pool[t].signed[i] THEN {} ELSE Keyed(pool[t].how[i]) } :
                                        i \in 1..Len(pool[t].how) } : t \in { x \in Of({"tx"}) : \A i \in 1..Len(pool[x].how) : pool[x].how[i].kind # "open" } }
Ops == {"derive", "neuter", "key", "pub", "addr", "wif", "re", "lock", "redeem", "payto", "payall", "payee", "coin", "tx", "sign"}

\* A signature of the model: any nonce does; the order is that of the public keys
Nonce == << 1, 35, 69 >>
LowSig(d, hash) == LET w == EcdsaSign(Secp, d, NatBE(hash), Nonce)
                   IN  DerSig(w[1], IF BNLe(w[2], SecpHalfN) THEN w[2] ELSE BNSub(SecpN, w[2])) \o << SIGHASH_ALL >>
SignedBy(v, i, privs) ==
  LET h == v.how[i]
      hash == HashFor(v, i)
      sec(p) == Sec(PubOf(p))
      place(p) == CHOOSE l \in 1..Len(h.pubs) : h.pubs[l] = sec(p)
      sorted == IF Len(privs) = 2 /\ place(privs[1]) > place(privs[2]) THEN << privs[2], privs[1] >> ELSE privs
      is == IF h.kind = "address" THEN P2pkhIn(LowSig(privs[1].secret, hash), sec(privs[1]))
            ELSE P2shIn([j \in 1..Len(sorted) |-> LowSig(sorted[j].secret, hash)], CodeOf(h))
  IN  Signed(v, i, ScriptBytes(is))
Forget(v) == IF v.k = "tx" THEN [v EXCEPT !.how = [j \in 1..Len(v.how) |-> [kind |-> "open"]]] ELSE v
MadeBy(c) ==
  CASE c.op = "sign" -> SignedBy(pool[c.a.of], c.a.index + 1, Refs(pool, c.a.keys))
    [] c.op = "re" /\ c.a.via \notin {"parts", "copy", "pickle"} -> Forget(pool[c.a.of])
    [] OTHER -> Meaning(pool, c.op, c.a)

Init == pick = "" /\ hist = Base /\ pool = RunAll(Base, << >>)
Start == Len(Base)
Choose_ == /\ pick = "" /\ Len(hist) < Start + Length
           /\ \E f \in Ops : Calls(f) # {} /\ pick' = f
           /\ UNCHANGED << pool, hist >>
Do == /\ pick \notin {"", "done"} /\ pick' = ""
      /\ \E c \in Calls(pick) : hist' = Append(hist, c) /\ pool' = TLCEval(Append(pool, TLCEval(MadeBy(c))))
Finish == pick = "" /\ Len(hist) = Start + Length /\ pick' = "done" /\ UNCHANGED << pool, hist >>
Next == Choose_ \/ Do \/ Finish
Spec == Init /\ [][Next]_vars

New == pool[Cur]
ReadsBack ==
  pick = "" =>
  CASE New.k = "x"    -> ParseX(XText(New.x), New.x.priv) = Yes(New.x)
    [] New.k = "priv" -> ParseWif(Wif(New.secret, New.net, New.comp)) = Yes([secret |-> New.secret, net |-> New.net, compressed |-> New.comp])
    [] New.k = "pub"  -> SecDecode(Sec(New)) = Yes([P |-> New.P, compressed |-> New.comp])
    [] New.k = "addr" -> ParseAddrText(AddrText(New.a)) = Yes(New.a)
    [] New.k = "script" -> LET p == ParseScript(New.b) IN p.ok /\ ScriptBytes(p.v) = New.b
    [] New.k = "out"  -> LET p == ParseOut(OutBytes(New)) IN p.ok /\ p.v.amount = New.amount /\ p.v.script = New.script
    [] New.k = "tx"   -> ParseTx(TxBytes(New.t)) = Yes(New.t)
    [] OTHER -> TRUE
WaysMeet ==
  pick = "" /\ New.k = "x" /\ New.x.priv =>
    LET p == VPriv(New.x.secret, New.x.net, TRUE) IN AddrOf(PubOf(p)) = AddrOf(PubOf(New)) /\ PubOf(VX(Neuter(New.x))) = PubOf(New)
PaysWhoItSays ==
  pick = "" /\ New.k = "out" => LET w == PayeeOf(New.script, Livenet) IN
    w.k # "none" /\ New.script = (IF w.a.type = T_pubkeyhash THEN LockTo(w) ELSE ScriptBytes(P2shOut(w.a.phash)))
Spends ==
  pick = "" /\ New.k = "tx" =>
    \A i \in 1..Len(New.how) :
      New.how[i].kind # "open" =>
        /\ New.signed[i] <=> Unlocks(New.t, i, New.how[i])
        \* nothing else: neither with other outputs nor for another lock time
        /\ ~Unlocks([New.t EXCEPT !.outs[1].amount = << 9, 9 >>], i, New.how[i])
        /\ ~Unlocks([New.t EXCEPT !.lock = << 1 >>], i, New.how[i])
Emit == pick = "done" => PrintT("@" \o ToJson([op |-> "flow", calls |-> SubSeq(hist, 1, Len(hist))]))
=============================================================================
