------------------------------- MODULE S_Flow -------------------------------
(***************************************************************************)
(* What the code may do: the steps of Flow (C29).  The state of a session  *)
(* is the pool.                                                            *)
(***************************************************************************)
EXTENDS Flow, Obs
FK == INSTANCE S_Keys
FH == INSTANCE S_HD
FT == INSTANCE S_Tx

See(v) ==
  CASE v.k = "x"      -> FH!XObs(v.x)
    [] v.k = "priv"   -> FK!PrivObs(v.secret, v.net, v.comp)
    [] v.k = "pub"    -> FK!PubObs(v.P, v.net, v.comp)
    [] v.k = "addr"   -> FK!AddrObs(v.a)
    [] v.k = "script" -> OBytes(v.b)
    [] v.k = "out"    -> [k |-> "out", f |-> FT!ObsOut(v), bytes |-> OBytes(OutBytes(v))]
    [] v.k = "tx"     -> FT!ObsTx(v.t)

StepName(op) ==
  CASE op = "seed" -> "a master key" [] op = "xkey" -> "an extended key from its text" [] op = "wif" -> "a private key from its WIF"
    [] op = "derive" -> "a child key" [] op = "neuter" -> "the public form of an extended key" [] op = "key" -> "the private key of an extended key"
    [] op = "pub" -> "the public key" [] op = "addr" -> "the address" [] op = "re" -> "a value written and read back"
    [] op = "lock" -> "the script that locks an output" [] op = "redeem" -> "a multisig redeem script" [] op = "payto" -> "an output"
    [] op = "payall" -> "a multisig output" [] op = "output" -> "an output with a script" [] op = "script" -> "the script taken out"
    [] op = "coin" -> "the output taken out of a transaction" [] op = "payee" -> "whom an output pays"
    [] op = "signer" -> "the public key in a signed input" [] op = "inner" -> "the redeem script in a signed input"
    [] op = "parse" -> "a script from its bytes"
    [] op = "member" -> "the key taken out of a multisig script" [] op = "tx" -> "a transaction that spends others" [] OTHER -> op

\* ev.ops: what the operands look like after the call
Kept(pool, ev) == \A j \in 1..Len(ev.refs) : pool[ev.refs[j]].k = "none" \/ ev.ops[j] = See(pool[ev.refs[j]])
Valid(pool, ev) == \A j \in 1..Len(ev.refs) : pool[ev.refs[j]].k # "none"

\* The signed script has the standard form for its way of spending, with a valid signature of each key
GoodSigned(h, script, privs, hash) ==
  LET secs == [j \in 1..Len(privs) |-> Sec(PubOf(privs[j]))]
      x == CASE h.kind = "address"  -> [kind |-> "address", pub |-> secs[1]]
             [] OTHER               -> h
  IN  FT!GoodScript(x, script, secs, hash, SIGHASH_ALL)
\* A redeem script of another form than multisig needs more than signatures
Open(h) == h.kind = "script" /\ (LET p == ParseScript(h.redeem) IN ~p.ok \/ Shape(p.v) # "RedeemMultisig")
Sign(pool, ev) ==
  LET v == pool[ev.a.of]  i == ev.a.index + 1  privs == Refs(pool, ev.a.keys) IN
  IF v.signed[i] THEN {}
  ELSE IF v.how[i].kind = "open" \/ ~MaySign(v.how[i], privs) THEN {}
  ELSE IF ~FT!OnlyScriptChanged(v.t, i, ev.r) THEN {"C29:signing changes only the script of its input"}
  ELSE Clause("C29:a signed input spends the coin: standard script, valid signatures of its keys",
              GoodSigned(v.how[i], ev.r.ins[i].script.v, privs, HashFor(v, i)))
       \cup Clause("C29:the script machine accepts the signed input for the coin it spends",
              Open(v.how[i]) \/ Unlocks(WithScript(v.t, i, ev.r.ins[i].script.v), i, v.how[i]))
       \cup Clause("C29:the id of a signed transaction is that of its bytes",
              ev.id = OText(TxId(WithScript(v.t, i, ev.r.ins[i].script.v))))
Can(pool, ev) ==
  LET v == pool[ev.a.of]  i == ev.a.index + 1 IN
  IF v.signed[i] \/ v.how[i].kind \notin {"address", "multisig"} THEN {}
  ELSE IF v.how[i].kind = "multisig" /\ ~FT!IsDistinct(v.how[i].pubs) THEN {}
  ELSE Clause("C29:can_sign says whether the keys spend the coin", ev.r = OBool(MaySign(v.how[i], Refs(pool, ev.a.keys))))
Same(pool, ev) ==
  LET p == pool[ev.a.p]  q == pool[ev.a.q] IN
  Clause("C29:values are equal exactly if they mean the same", ev.r = OBool(p = q))
  \cup (IF p = q THEN Clause("C29:equal values have the same hash", ev.hash = OBool(TRUE)) ELSE {})

Flow_Start(h) == << >>
Flow_Failing(pool, ev) ==
  IF ~Valid(pool, ev) THEN {}
  ELSE Clause("C29:a step leaves the values it uses alone", Kept(pool, ev))
       \cup (CASE ev.op = "sign" -> Sign(pool, ev)
               [] ev.op = "can"  -> Can(pool, ev)
               [] ev.op = "same" -> Same(pool, ev)
               [] OTHER -> LET w == Meaning(pool, ev.op, ev.a) IN
                           IF w.k = "none" THEN Clause("C29:refused: " \o StepName(ev.op), Refused(ev.r))
                           ELSE Clause("C29:" \o StepName(ev.op), ev.r = See(w))
                                \cup (IF w.k # "tx" THEN {}
                                      ELSE Clause("C29:the id of a transaction is that of its bytes", ev.id = OText(TxId(w.t)))))
\* What is read back has plain inputs, which do not know how to sign themselves
Forget(v) == IF v.k = "tx" THEN [v EXCEPT !.how = [j \in 1..Len(v.how) |-> [kind |-> "open"]]] ELSE v
Made(pool, ev) ==
  IF ~Valid(pool, ev) THEN Nothing
  ELSE CASE ev.op = "sign" ->
              LET v == pool[ev.a.of]  i == ev.a.index + 1 IN
              IF FT!OnlyScriptChanged(v.t, i, ev.r) THEN Signed(v, i, ev.r.ins[i].script.v) ELSE Nothing
         [] ev.op \in {"can", "same"} -> Nothing
         [] ev.op = "re" /\ ev.a.via \notin {"parts", "copy", "pickle"} -> Forget(pool[ev.a.of])
         [] OTHER -> Meaning(pool, ev.op, ev.a)
Flow_After(pool, ev) == Append(pool, TLCEval(Made(pool, ev)))
=============================================================================
