------------------------------- MODULE S_Util -------------------------------
(***************************************************************************)
(* What the code may do: the helpers of bitforge.utils (C25): WIF, SEC and *)
(* address texts, base58, conversions between integers and bytes.          *)
(***************************************************************************)
EXTENDS Keys, Obs

\* A WIF text by form alone: prefix, secret, compression
WifForm(t) ==
  LET d == B58CheckDecode(t) IN
  IF ~d.ok \/ Len(d.v) \notin {33, 34} \/ (Len(d.v) = 34 /\ d.v[34] # 1) THEN No
  ELSE Yes([prefix |-> d.v[1], secret |-> NatBE(SubSeq(d.v, 2, 33)), compressed |-> Len(d.v) = 34])
WifOpen(w) == w.ok /\ ~ValidSecret(SInt(0, w.v.secret))
\* Key hash addresses: hash and version byte of one of the two networks
AddrForm(t) ==
  LET d == B58CheckDecode(t) IN
  IF d.ok /\ Len(d.v) = 21 /\ d.v[1] \in {Livenet.pubkeyhash, Testnet.pubkeyhash}
  THEN Yes([prefix |-> d.v[1], hash |-> SubSeq(d.v, 2, 21)]) ELSE No

In(x, q) == \E i \in 1..Len(q) : q[i] = x
Pair(a) == << a.x, a.y >>
OPair(P) == OList(<< ONat(P[1]), ONat(P[2]) >>)
FitsIn(n, len) == n.neg = 0 /\ Fits(n.v, len)
Either(ok, r, want) == IF ok THEN r = want ELSE Refused(r)
Order(be, b) == IF be THEN b ELSE Rev(b)

ToWif(ev) ==
  Clause("C25:secret_exponent_to_wif",
    Either(FitsIn(ev.a.n, 32), ev.r,
           OText(B58CheckEncode(<< ev.a.prefix >> \o FixedBE(ev.a.n.v, 32) \o (IF ev.a.comp THEN << 1 >> ELSE << >>)))))
OfWif(ev) ==
  LET w == TLCEval(WifForm(ev.a.t))
      ok == w.ok /\ In(w.v.prefix, ev.a.allow)
      pair == OList(<< ONat(w.v.secret), OBool(w.v.compressed) >>)
  IN  IF WifOpen(w) THEN Clause("C25:is_valid_wif never raises", ev.valid.k = "bool")
      ELSE Clause("C25:the parts of a WIF text",
                  Either(w.ok, ev.r, OList(<< OBytes(<< w.v.prefix >>), ONat(w.v.secret), OBool(w.v.compressed) >>)))
           \cup Clause("C25:the secret and compression of a WIF text", Either(ok, ev.pair, pair))
           \cup Clause("C25:the secret of a WIF text", Either(ok, ev.secret, ONat(w.v.secret)))
           \cup Clause("C25:is_valid_wif is exact", ev.valid = OBool(ok))
ToSec(ev) ==
  LET P == Pair(ev.a)
      sec == TLCEval(SecEncode(P, ev.a.comp))
  IN  Clause("C25:public_pair_to_sec", ev.r = OBytes(sec))
      \cup Clause("C25:public_pair_to_hash160_sec", ev.hash = OBytes(Hash160(sec)))
      \cup Clause("C25:public_pair_to_bitcoin_address",
             ev.addr = OText(B58CheckEncode(<< ev.a.prefix >> \o Hash160(sec))))
OfSec(ev) ==
  LET d == TLCEval(SecDecode(ev.a.b))
  IN  Clause("C25:sec_to_public_pair", Either(d.ok, ev.r, OPair(d.v.P)))
      \cup (IF d.ok THEN Clause("C25:is_sec_compressed", ev.comp = OBool(d.v.compressed)) ELSE {})
ToAddr(ev) == Clause("C25:hash160_sec_to_bitcoin_address", ev.r = OText(B58CheckEncode(<< ev.a.prefix >> \o ev.a.b)))
OfAddr(ev) ==
  LET d == TLCEval(AddrForm(ev.a.t))
  IN  Clause("C25:the parts of an address",
             Either(d.ok, ev.r, OList(<< OBytes(d.v.hash), OBytes(<< d.v.prefix >>) >>)))
      \cup Clause("C25:the hash of an address of a network",
             Either(d.ok /\ d.v.prefix = ev.a.prefix, ev.hash, OBytes(d.v.hash)))
      \cup Clause("C25:is_valid_bitcoin_address is exact", ev.valid = OBool(d.ok /\ In(d.v.prefix, ev.a.allow)))
ToB58(ev) == Clause("C25:b2a_base58", ev.r = OText(B58Encode(ev.a.b)))
             \cup Clause("C25:b2a_hashed_base58", ev.hashed = OText(B58CheckEncode(ev.a.b)))
OfB58(ev) ==
  LET d == B58Decode(ev.a.t)
      c == B58CheckDecode(ev.a.t)
  IN  Clause("C25:a2b_base58", Either(d.ok, ev.r, OBytes(d.v)))
      \cup Clause("C25:a2b_hashed_base58", Either(c.ok, ev.hashed, OBytes(c.v)))
      \cup Clause("C25:is_hashed_base58_valid is exact", ev.valid = OBool(c.ok))
Hashes(ev) == Clause("C25:double_sha256", ev.r = OBytes(Hash256(ev.a.b)))
              \cup Clause("C25:hash160", ev.h160 = OBytes(Hash160(ev.a.b)))
              \cup Clause("C25:ripemd160", ev.ripemd = OBytes(Ripemd160(ev.a.b)))
ToBytes(ev) ==
  Clause("C25:to_bytes", Either(FitsIn(ev.a.n, ev.a.len), ev.r, OBytes(Order(ev.a.be, FixedBE(ev.a.n.v, ev.a.len)))))
  \cup Clause("C25:to_bytes_32", Either(FitsIn(ev.a.n, 32), ev.b32, OBytes(FixedBE(ev.a.n.v, 32))))
  \cup Clause("C25:int_to_bytes", Either(ev.a.n.neg = 0, ev.min, OBytes(ev.a.n.v)))
Twos(b) == LET v == NatBE(b) IN
           IF b # << >> /\ b[1] >= 128 THEN LET m == BNSub(BNPow2(8 * Len(b)), v) IN OInt(1, m) ELSE ONat(v)
OfBytes(ev) ==
  Clause("C25:from_bytes",
    ev.r = (IF ev.a.signed THEN Twos(Order(ev.a.be, ev.a.b)) ELSE ONat(NatBE(Order(ev.a.be, ev.a.b)))))
  \cup Clause("C25:int_from_bytes", ev.min = ONat(NatBE(ev.a.b)))
  \cup (IF Len(ev.a.b) = 32 THEN Clause("C25:from_bytes_32", ev.b32 = ONat(NatBE(ev.a.b))) ELSE {})
  \cup Clause("C25:bytes_to_ints and bytes_from_ints",
         /\ ev.ints = OList([i \in 1..Len(ev.a.b) |-> ONat(BNOf(ev.a.b[i]))])
         /\ ev.again = OBytes(ev.a.b))
\* Digits in a base: the number and how many zeros stand in front, and back
Long(ev) ==
  LET v == BNOfDigits(ev.a.ds, ev.a.base)  z == Leading(ev.a.ds, 0)
  IN  Clause("C25:to_long", ev.r = OList(<< ONat(v), ONat(BNOf(z)) >>))
      \cup Clause("C25:from_long", ev.back = OBytes(ev.a.ds))

Util_Failing(st, ev) ==
  CASE ev.op = "to_wif"  -> ToWif(ev)
    [] ev.op = "of_wif"  -> OfWif(ev)
    [] ev.op = "to_sec"  -> ToSec(ev)
    [] ev.op = "of_sec"  -> OfSec(ev)
    [] ev.op = "to_addr" -> ToAddr(ev)
    [] ev.op = "of_addr" -> OfAddr(ev)
    [] ev.op = "to_b58"  -> ToB58(ev)
    [] ev.op = "of_b58"  -> OfB58(ev)
    [] ev.op = "hashes"  -> Hashes(ev)
    [] ev.op = "to_bytes" -> ToBytes(ev)
    [] ev.op = "of_bytes" -> OfBytes(ev)
    [] ev.op = "long"    -> Long(ev)
=============================================================================
