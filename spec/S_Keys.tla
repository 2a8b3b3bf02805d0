------------------------------- MODULE S_Keys -------------------------------
(***************************************************************************)
(* What the code may do: keys and addresses (C01 .. C05).                  *)
(***************************************************************************)
EXTENDS Keys, Obs

Obj(t, f) == [k |-> "obj", t |-> t, f |-> f]

PrivObs(secret, net, compressed) ==
  Obj("PrivateKey",
    [ secret |-> ONat(secret), network |-> OText(net.name), compressed |-> OBool(compressed),
      bytes |-> OBytes(FixedBE(secret, 32)), hex |-> OText(HexText(FixedBE(secret, 32))),
      wif |-> OText(Wif(secret, net, compressed)) ])
PubObs(P, net, compressed) ==
  Obj("PublicKey",
    [ x |-> ONat(P[1]), y |-> ONat(P[2]), network |-> OText(net.name), compressed |-> OBool(compressed),
      bytes |-> OBytes(SecEncode(P, compressed)), hex |-> OText(HexText(SecEncode(P, compressed))) ])
AddrObs(a) ==
  Obj("Address",
    [ phash |-> OBytes(a.phash), network |-> OText(a.net.name), type |-> OText(a.type),
      bytes |-> OBytes(AddrBytes(a)), hex |-> OText(HexText(AddrBytes(a))), string |-> OText(AddrText(a)) ])

\* A call that must give the object want.v when want.ok and refuse otherwise; exact: the
\* property that fixes the content, domain: the one that fixes what is accepted.
Expect(r, want, err, exact, domain) ==
  IF want.ok
  THEN IF r.k = "obj" THEN Clause(exact, r = want.v)
       ELSE Clause(exact, FALSE) \cup Clause(domain, FALSE)
  ELSE Clause(domain, ErrIs(r, err))

(* C01, C02 *)
PrivNew(ev) ==
  LET net == NetNamed(ev.a.net)
      want == IF net.ok /\ ValidSecret(ev.a.n) THEN Yes(PrivObs(ev.a.n.v, net.v, ev.a.comp)) ELSE No
  IN  Expect(ev.r, want, "PrivateKey.Error", "C01:PrivateKey and its encodings", "C02:PrivateKey() accepts exactly valid keys")
PrivOfBytes(b, netname, comp) ==
  LET net == NetNamed(netname)
  IN  IF net.ok /\ Len(b) = 32 /\ ValidSecret(SInt(0, NatBE(b))) THEN Yes(PrivObs(NatBE(b), net.v, comp)) ELSE No
PrivFromBytes(ev) ==
  Expect(ev.r, PrivOfBytes(ev.a.b, ev.a.net, ev.a.comp), "PrivateKey.Error",
         "C01:PrivateKey.from_bytes", "C02:PrivateKey.from_bytes accepts exactly valid keys")
PrivFromHex(ev) ==
  LET d == ParseHex(ev.a.t)
  IN  Expect(ev.r, IF d.ok THEN PrivOfBytes(d.v, ev.a.net, ev.a.comp) ELSE No, "PrivateKey.Error",
             "C01:PrivateKey.from_hex", "C02:PrivateKey.from_hex accepts exactly valid keys")
PrivFromWif(ev) ==
  LET w == ParseWif(ev.a.t)
  IN  Expect(ev.r, IF w.ok THEN Yes(PrivObs(w.v.secret, w.v.net, w.v.compressed)) ELSE No, "PrivateKey.Error",
             "C01:PrivateKey.from_wif", "C02:PrivateKey.from_wif accepts exactly valid keys")
\* A key made up by the library: its secret is in range
PrivRandom(ev) ==
  Clause("C02:a random key is a valid key",
    /\ ev.r.k = "obj"
    /\ ev.r.f.secret.k = "int" /\ ValidSecret(SInt(ev.r.f.secret.neg, ev.r.f.secret.v)))
\* Keys made up one after the other, also by other processes: valid, all different, and
\* drawn from the whole range (every bit of the secret takes both values)
Bit(b, j) == (b[1 + j \div 8] \div (2 ^ (j % 8))) % 2
PrivFresh(ev) ==
  LET S == ev.r.items
      ok == ev.r.k = "list" /\ Len(S) = ev.a.n + ev.a.procs * ev.a.m
            /\ (\A i \in 1..Len(S) : PrivRandom([r |-> S[i]]) = {} /\ S[i] = PrivObs(S[i].f.secret.v, Livenet, TRUE))
      B == TLCEval([i \in 1..Len(S) |-> S[i].f.bytes.v])
  IN  IF ~ok THEN {"C02:random keys are valid keys"}
      ELSE Clause("C02:random keys do not repeat", \A i, j \in 1..Len(S) : i < j => B[i] # B[j])
           \cup Clause("C02:random keys are drawn from the whole range",
                  \A j \in 0..255 : { Bit(B[i], j) : i \in 1..Len(S) } = {0, 1})
\* Reading every form back gives the same key (r: list of the objects read back)
PrivBack(ev) ==
  LET want == PrivObs(ev.a.n.v, NetNamed(ev.a.net).v, ev.a.comp)
  IN  Clause("C01:every encoding reads back to the same key",
             ev.r = OList(<< want, want, want >>))

(* C03: the public key of a secret, by every way to it *)
PubOfPriv(ev) ==
  LET net == NetNamed(ev.a.net).v
      P == PubPoint(ev.a.n.v)
      want == PubObs(P, net, ev.a.comp)
      sec == SecEncode(P, ev.a.comp)
  IN  Clause("C03:to_public_key", ev.r = want)
      \cup Clause("C03:PublicKey.from_private_key", ev.r2 = want)
      \cup Clause("C03:address of a private key",
                  ev.addr.k = "obj" /\ ev.addr = AddrObs([phash |-> Hash160(sec), net |-> net, type |-> T_pubkeyhash]))
      \cup Clause("C03:public key in a signed input", ev.a.script => ev.script = OBytes(sec))

(* C04 *)
PubNew(ev) ==
  LET net == NetNamed(ev.a.net)
      ok == /\ net.ok /\ ev.a.x.neg = 0 /\ ev.a.y.neg = 0
            /\ IsPoint(Secp, << ev.a.x.v, ev.a.y.v >>)
  IN  Expect(ev.r, IF ok THEN Yes(PubObs(<< ev.a.x.v, ev.a.y.v >>, net.v, ev.a.comp)) ELSE No, "PublicKey.Error",
             "C04:PublicKey and its encodings", "C04:PublicKey() accepts exactly the points of the curve")
PubOfBytes(b, netname) ==
  LET net == NetNamed(netname)
      d == SecDecode(b)
  IN  IF net.ok /\ d.ok THEN Yes(PubObs(d.v.P, net.v, d.v.compressed)) ELSE No
PubFromBytes(ev) ==
  Expect(ev.r, PubOfBytes(ev.a.b, ev.a.net), "PublicKey.Error",
         "C04:PublicKey.from_bytes", "C04:PublicKey.from_bytes accepts exactly the encodings of points")
PubFromHex(ev) ==
  LET d == ParseHex(ev.a.t)
  IN  Expect(ev.r, IF d.ok THEN PubOfBytes(d.v, ev.a.net) ELSE No, "PublicKey.Error",
             "C04:PublicKey.from_hex", "C04:PublicKey.from_hex accepts exactly the encodings of points")

(* C05 *)
AddrNew(ev) ==
  LET net == NetNamed(ev.a.net)
      ok == net.ok /\ Len(ev.a.b) = 20 /\ ev.a.type \in {T_pubkeyhash, T_scripthash}
  IN  Expect(ev.r, IF ok THEN Yes(AddrObs([phash |-> ev.a.b, net |-> net.v, type |-> ev.a.type])) ELSE No,
             "Address.Error", "C05:Address and its encodings", "C05:Address() accepts exactly valid addresses")
AddrWant(p) == IF p.ok THEN Yes(AddrObs(p.v)) ELSE No
AddrFromBytes(ev) ==
  Expect(ev.r, AddrWant(ParseAddr(ev.a.b)), "Address.Error",
         "C05:Address.from_bytes", "C05:Address.from_bytes accepts exactly valid addresses")
AddrFromHex(ev) ==
  LET d == ParseHex(ev.a.t)
  IN  Expect(ev.r, IF d.ok THEN AddrWant(ParseAddr(d.v)) ELSE No, "Address.Error",
             "C05:Address.from_hex", "C05:Address.from_hex accepts exactly valid addresses")
AddrFromString(ev) ==
  Expect(ev.r, AddrWant(ParseAddrText(ev.a.t)), "Address.Error",
         "C05:Address.from_string", "C05:Address.from_string accepts exactly valid addresses")
\* The address of a public key (given by its bytes) by every way to it: a list of equal addresses
AddrOfPub(ev) ==
  LET want == AddrObs([phash |-> Hash160(ev.a.b), net |-> NetNamed(ev.a.net).v, type |-> T_pubkeyhash])
  IN  Clause("C05:address of a public key", ev.r = OList([j \in 1..Len(ev.r.items) |-> want]))
AddrOfScript(ev) ==
  Clause("C05:address of a script",
    ev.r = AddrObs([phash |-> Hash160(ev.a.b), net |-> NetNamed(ev.a.net).v, type |-> T_scripthash]))
AddrBack(ev) ==
  LET want == AddrObs([phash |-> ev.a.b, net |-> NetNamed(ev.a.net).v, type |-> ev.a.type])
  IN  Clause("C05:every form of an address reads back to it", ev.r = OList(<< want, want, want >>))

Keys_Failing(st, ev) ==
  CASE ev.op = "priv_new"    -> PrivNew(ev)
    [] ev.op = "priv_bytes"  -> PrivFromBytes(ev)
    [] ev.op = "priv_hex"    -> PrivFromHex(ev)
    [] ev.op = "priv_wif"    -> PrivFromWif(ev)
    [] ev.op = "priv_random" -> PrivRandom(ev)
    [] ev.op = "priv_fresh"  -> PrivFresh(ev)
    [] ev.op = "priv_back"   -> PrivBack(ev)
    [] ev.op = "pub_of_priv" -> PubOfPriv(ev)
    [] ev.op = "pub_new"     -> PubNew(ev)
    [] ev.op = "pub_bytes"   -> PubFromBytes(ev)
    [] ev.op = "pub_hex"     -> PubFromHex(ev)
    [] ev.op = "addr_new"    -> AddrNew(ev)
    [] ev.op = "addr_bytes"  -> AddrFromBytes(ev)
    [] ev.op = "addr_hex"    -> AddrFromHex(ev)
    [] ev.op = "addr_string" -> AddrFromString(ev)
    [] ev.op = "addr_of_pub" -> AddrOfPub(ev)
    [] ev.op = "addr_of_script" -> AddrOfScript(ev)
    [] ev.op = "addr_back"   -> AddrBack(ev)
=============================================================================
