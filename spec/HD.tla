--------------------------------- MODULE HD ---------------------------------
(***************************************************************************)
(* Hierarchical deterministic keys (BIP32).                                *)
(* An extended key is a record: priv (is it a private one), secret (of a   *)
(* private one, else << >>), P (its public point), chain (32 bytes),       *)
(* depth, index and parent (numbers; parent is the fingerprint of the      *)
(* parent, 0 for a master key), net.                                       *)
(***************************************************************************)
EXTENDS Keys

SeedKey == << 66, 105, 116, 99, 111, 105, 110, 32, 115, 101, 101, 100 >>    \* "Bitcoin seed"
MinSeed == 32
HardenedStart == << 128, 0, 0, 0 >>
IsHardened(i) == ~BNLt(i, HardenedStart)
\* The index that a request means: number and flag
ChildIndex(i, hardened) == IF hardened /\ ~IsHardened(i) THEN BNAdd(i, HardenedStart) ELSE i

Fingerprint(x) == NatBE(SubSeq(Hash160(SecEncode(x.P, TRUE)), 1, 4))

XPriv(secret, chain, depth, index, parent, net) ==
  [priv |-> TRUE, secret |-> secret, P |-> PubPoint(secret), chain |-> chain, depth |-> depth, index |-> index,
   parent |-> parent, net |-> net]
Neuter(x) == [x EXCEPT !.priv = FALSE, !.secret = << >>]

Left(h)  == NatBE(SubSeq(h, 1, 32))
Right(h) == SubSeq(h, 33, 64)

Master(seed) ==
  IF Len(seed) < MinSeed THEN No
  ELSE LET h == HmacSha512(SeedKey, seed)
       IN  IF ~ValidSecret(SInt(0, Left(h))) THEN No
           ELSE Yes(XPriv(Left(h), Right(h), 0, << >>, << >>, Livenet))

\* i: the index, below 2^32
Ckd(x, i) ==
  IF ~x.priv /\ IsHardened(i) THEN No
  ELSE LET data == IF IsHardened(i) THEN << 0 >> \o FixedBE(x.secret, 32) ELSE SecEncode(x.P, TRUE)
           h == HmacSha512(x.chain, data \o FixedBE(i, 4))
       IN  IF ~BNLt(Left(h), SecpN) THEN No
           ELSE IF x.priv
           THEN LET s == BNAddMod(Left(h), x.secret, SecpN)
                IN  IF s = BNZero THEN No ELSE Yes(XPriv(s, Right(h), x.depth + 1, i, Fingerprint(x), x.net))
           ELSE LET P == CAdd(Secp, CMul(Secp, Left(h), SecpG), x.P)
                IN  IF P = Inf THEN No
                    ELSE Yes([x EXCEPT !.P = P, !.chain = Right(h), !.depth = x.depth + 1, !.index = i,
                                       !.parent = Fingerprint(x)])

XBytes(x) ==
  (IF x.priv THEN x.net.hdpriv ELSE x.net.hdpub) \o << x.depth >> \o FixedBE(x.parent, 4) \o FixedBE(x.index, 4) \o x.chain
  \o (IF x.priv THEN << 0 >> \o FixedBE(x.secret, 32) ELSE SecEncode(x.P, TRUE))
XText(x) == B58CheckEncode(XBytes(x))

ParseX(t, priv) ==
  LET d == B58CheckDecode(t) IN
  IF ~d.ok \/ Len(d.v) # 78 THEN No
  ELSE LET b == d.v
           net == TheNet({n \in Networks : (IF priv THEN n.hdpriv ELSE n.hdpub) = SubSeq(b, 1, 4)})
           chain == SubSeq(b, 14, 45)
           parent == NatBE(SubSeq(b, 6, 9))
           index == NatBE(SubSeq(b, 10, 13))
           secret == NatBE(SubSeq(b, 47, 78))
           k == SecDecode(SubSeq(b, 46, 78))
       IN  IF ~net.ok THEN No
           ELSE IF priv
           THEN IF b[46] # 0 \/ ~ValidSecret(SInt(0, secret)) THEN No
                ELSE Yes(XPriv(secret, chain, b[5], index, parent, net.v))
           ELSE IF ~k.ok THEN No
                ELSE Yes([priv |-> FALSE, secret |-> << >>, P |-> k.v.P, chain |-> chain, depth |-> b[5], index |-> index,
                          parent |-> parent, net |-> net.v])
\* A master key has neither an index nor a parent; BIP32 asks readers to refuse what says otherwise
OddMaster(x) == x.depth = 0 /\ (x.index # << >> \/ x.parent # << >>)
=============================================================================
