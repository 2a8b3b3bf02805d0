-------------------------------- MODULE Flow --------------------------------
(***************************************************************************)
(* A wallet at work: from seeds and keys to addresses, outputs and         *)
(* transactions that spend each other.  Every step makes one new value     *)
(* from values made before, whatever route these came by (derived, read    *)
(* back from one of their encodings, taken out of a script or of a         *)
(* transaction); the pool is the sequence of all values so far, one for    *)
(* every step.  A value is a record with a kind k:                         *)
(*   "x"      an extended key x                                            *)
(*   "priv"   secret, net, comp         "pub"  P, net, comp                *)
(*   "addr"   an address a              "script"  its bytes b              *)
(*   "out"    amount, script            "in"  an input, and how it is spent *)
(*   "tx"     a transaction t, for every input how it is spent (how) and   *)
(*            whether it is signed                                         *)
(*   "none"   nothing: the step was refused                                *)
(***************************************************************************)
EXTENDS HD, Interp

Nothing == [k |-> "none"]
VX(x) == [k |-> "x", x |-> x]
VPriv(secret, net, comp) == [k |-> "priv", secret |-> secret, net |-> net, comp |-> comp]
VPub(P, net, comp) == [k |-> "pub", P |-> P, net |-> net, comp |-> comp]
VAddr(phash, net, type) == [k |-> "addr", a |-> [phash |-> phash, net |-> net, type |-> type]]
VScript(b) == [k |-> "script", b |-> b]
VOut(amount, script) == [k |-> "out", amount |-> amount, script |-> script]
VTx(t, how, signed) == [k |-> "tx", t |-> t, how |-> how, signed |-> signed]

Sec(u) == SecEncode(u.P, u.comp)
PubOf(v) == CASE v.k = "x"    -> VPub(v.x.P, v.x.net, TRUE)
              [] v.k = "priv" -> VPub(PubPoint(v.secret), v.net, v.comp)
              [] OTHER        -> v
AddrOf(u) == VAddr(Hash160(Sec(u)), u.net, T_pubkeyhash)
NetOf(name) == NetNamed(name).v

\* The script that locks an output: to an address of a key, to the hash of a script
LockTo(v) == IF v.k = "addr" THEN ScriptBytes(P2pkhOut(v.a.phash)) ELSE ScriptBytes(P2shOut(Hash160(v.b)))
RedeemOf(us, m) == ScriptBytes(Multisig([j \in 1..Len(us) |-> Sec(us[j])], m))
\* Whom a standard output script pays, on a network
PayeeOf(b, net) ==
  LET p == ParseScript(b) IN
  IF ~p.ok THEN Nothing
  ELSE IF Shape(p.v) = "PayToPubkeyOut" /\ Len(p.v[3].data) = 20 THEN VAddr(p.v[3].data, net, T_pubkeyhash)
  ELSE IF Shape(p.v) = "PayToScriptOut" /\ Len(p.v[2].data) = 20 THEN VAddr(p.v[2].data, net, T_scripthash)
  ELSE Nothing
\* The keys of a multisig script, which says nothing about networks
MembersOf(b) ==
  LET p == ParseScript(b) IN
  [j \in 1..(Len(p.v) - 3) |-> LET d == SecDecode(p.v[j + 1].data).v IN VPub(d.P, Livenet, d.compressed)]

\* An input: where the coin is (a transaction of the pool, or one that is only named), how it is spent
Refs(pool, rs) == [j \in 1..Len(rs) |-> pool[rs[j]]]
HowOf(pool, i) ==
  CASE i.how = "address"  -> [kind |-> "address", hash |-> pool[i.of[1]].a.phash]
    [] i.how = "multisig" -> [kind |-> "multisig", pubs |-> [j \in 1..Len(i.of) |-> Sec(pool[i.of[j]])], m |-> i.m]
    [] OTHER              -> [kind |-> "script", redeem |-> pool[i.of[1]].b]
CodeOf(h) == CASE h.kind = "address"  -> ScriptBytes(P2pkhOut(h.hash))
               [] h.kind = "multisig" -> ScriptBytes(Multisig(h.pubs, h.m))
               [] OTHER               -> h.redeem
IdOf(pool, i) == IF i.prev = 0 THEN i.txid ELSE Rev(Hash256(TxBytes(pool[i.prev].t)))
InFor(pool, i) == [txid |-> IdOf(pool, i), index |-> BNOf(i.n), seq |-> i.seq, script |-> CodeOf(HowOf(pool, i))]
MakeTx(pool, a) ==
  VTx([ version |-> a.version, lock |-> a.lock,
        ins |-> [j \in 1..Len(a.ins) |-> InFor(pool, a.ins[j])],
        outs |-> [j \in 1..Len(a.outs) |-> [amount |-> pool[a.outs[j]].amount, script |-> pool[a.outs[j]].script]] ],
      [j \in 1..Len(a.ins) |-> HowOf(pool, a.ins[j])], [j \in 1..Len(a.ins) |-> FALSE])

\* May these keys sign that way of spending?
MaySign(h, privs) ==
  LET secs == [j \in 1..Len(privs) |-> Sec(PubOf(privs[j]))] IN
  CASE h.kind = "address"  -> Len(privs) = 1 /\ Hash160(secs[1]) = h.hash
    [] h.kind = "multisig" -> /\ Len(privs) = h.m
                              /\ \A j, l \in 1..Len(privs) : j # l => secs[j] # secs[l]
                              /\ \A j \in 1..Len(privs) : \E l \in 1..Len(h.pubs) : h.pubs[l] = secs[j]
    [] OTHER               -> Len(privs) > 0
HashFor(v, i) == SigHash(v.t, i, v.t.ins[i].script, SIGHASH_ALL)

\* The coin that an input spends, as the transaction before has to lock it, and whether the script
\* machine, asked as strictly as it can be, lets the input spend it
LockOf(h) == IF h.kind = "address" THEN P2pkhOut(h.hash) ELSE P2shOut(Hash160(CodeOf(h)))
Strict == F_P2SH + F_STRICTENC + F_DERSIG + F_LOW_S + F_NULLDUMMY + F_SIGPUSHONLY + F_MINIMALDATA + F_CLTV
Unlocks(t, i, h) ==
  LET p == ParseScript(t.ins[i].script) IN
  /\ p.ok
  /\ VerifyScript(p.v, LockOf(h), [flags |-> Strict, lock |-> t.lock, seq |-> t.ins[i].seq, tx |-> t, nin |-> i, dev |-> FALSE]).ok

\* The value that a step makes, except of signing, which leaves the signature open
Meaning(pool, op, a) ==
  CASE op = "seed"   -> LET m == Master(a.b) IN IF m.ok THEN VX(m.v) ELSE Nothing
    [] op = "xkey"   -> LET x == ParseX(a.t, a.priv) IN IF x.ok THEN VX(x.v) ELSE Nothing
    [] op = "wif"    -> LET w == ParseWif(a.t) IN IF w.ok THEN VPriv(w.v.secret, w.v.net, w.v.compressed) ELSE Nothing
    [] op = "parse"  -> VScript(a.b)      \* bytes that are a script
    [] op = "derive" -> LET c == Ckd(pool[a.of].x, ChildIndex(a.i, a.hardened)) IN IF c.ok THEN VX(c.v) ELSE Nothing
    [] op = "neuter" -> VX(Neuter(pool[a.of].x))
    [] op = "key"    -> LET x == pool[a.of].x IN VPriv(x.secret, x.net, TRUE)
    [] op = "pub"    -> PubOf(pool[a.of])
    [] op = "addr"   -> IF pool[a.of].k = "script" THEN VAddr(Hash160(pool[a.of].b), NetOf(a.net), T_scripthash)
                        ELSE AddrOf(PubOf(pool[a.of]))
    [] op = "re"     -> pool[a.of]
    [] op = "lock"   -> VScript(LockTo(pool[a.of]))
    [] op = "redeem" -> VScript(RedeemOf(Refs(pool, a.of), a.m))
    [] op = "payto"  -> VOut(a.amount, LockTo(pool[a.of]))
    [] op = "payall" -> VOut(a.amount, LockTo(VScript(RedeemOf(Refs(pool, a.of), a.m))))
    [] op = "output" -> VOut(a.amount, pool[a.of].b)
    [] op = "script" -> LET v == pool[a.of] IN VScript(IF v.k = "out" THEN v.script ELSE v.t.ins[a.n + 1].script)
    [] op = "coin"   -> LET o == pool[a.of].t.outs[a.n + 1] IN VOut(o.amount, o.script)
    [] op = "payee"  -> PayeeOf(IF pool[a.of].k = "out" THEN pool[a.of].script ELSE pool[a.of].b, NetOf(a.net))
    [] op = "member" -> MembersOf(pool[a.of].b)[a.n + 1]
    [] op = "signer" -> LET p == ParseScript(pool[a.of].b)  d == SecDecode(p.v[2].data).v IN VPub(d.P, Livenet, d.compressed)
    [] op = "inner"  -> VScript(Last(ParseScript(pool[a.of].b).v).data)
    [] op = "tx"     -> MakeTx(pool, a)
    [] OTHER         -> Nothing
\* After reading a transaction back, its inputs do not know how to sign themselves any more
Signed(v, i, script) == VTx(WithScript(v.t, i, script), v.how, [v.signed EXCEPT ![i] = TRUE])
=============================================================================
