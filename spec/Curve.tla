------------------------------- MODULE Curve --------------------------------
(***************************************************************************)
(* Elliptic curves y^2 = x^3 + a x + b over prime fields, in affine        *)
(* coordinates.  A curve is a record [p, a, b, n, g] of BigNat numbers and *)
(* a generator g of prime order n.  A point is << x, y >>, the point at    *)
(* infinity is << >>.                                                      *)
(***************************************************************************)
EXTENDS Codec

Inf == << >>

\* x^3 + a x + b
CurveRhs(c, x) == BNAddMod(BNMulMod(BNMulMod(x, x, c.p), x, c.p), BNAdd(BNMulMod(c.a, x, c.p), c.b), c.p)
InField(c, x) == BNLt(x, c.p)
OnCurve(c, x, y) == BNMulMod(y, y, c.p) = CurveRhs(c, x)
\* A point given by coordinates: in range and on the curve
IsPoint(c, P) == P = Inf \/ (InField(c, P[1]) /\ InField(c, P[2]) /\ OnCurve(c, P[1], P[2]))

PNeg(c, P) == IF P = Inf THEN Inf ELSE << P[1], BNSubMod(BNZero, P[2], c.p) >>

\* The chord-and-tangent construction
PAdd_(p, a, P, Q) ==
  IF P = Inf THEN Q
  ELSE IF Q = Inf THEN P
  ELSE IF P[1] = Q[1] /\ BNAddMod(P[2], Q[2], p) = BNZero THEN Inf
  ELSE LET l == IF P[1] = Q[1]
                THEN BNMulMod(BNAddMod(BNMulMod(<< 3 >>, BNMulMod(P[1], P[1], p), p), a, p),
                              BNInvMod(BNMulMod(<< 2 >>, P[2], p), p), p)
                ELSE BNMulMod(BNSubMod(Q[2], P[2], p), BNInvMod(BNSubMod(Q[1], P[1], p), p), p)
           x == BNSubMod(BNSubMod(BNMulMod(l, l, p), P[1], p), Q[1], p)
           y == BNSubMod(BNMulMod(l, BNSubMod(P[1], x, p), p), P[2], p)
       IN  TLCEval(<< x, y >>)
PAdd(p, a, P, Q) == PAdd_(p, a, P, Q)

RECURSIVE PMul_(_, _, _, _)
PMul_(p, a, k, P) ==
  IF k = << >> THEN Inf
  ELSE LET h == PMul_(p, a, BNHalf(k), P)
           d == PAdd_(p, a, h, h)
       IN  IF BNIsOdd(k) THEN PAdd_(p, a, d, P) ELSE d
PMul(p, a, k, P) == PMul_(p, a, k, P)

CAdd(c, P, Q) == PAdd(c.p, c.a, P, Q)
CMul(c, k, P) == PMul(c.p, c.a, k, P)

(* -------------------------------- secp256k1 ----------------------------- *)
SecpP == << 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 254, 255, 255, 252, 47 >>
SecpN == << 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 254, 186, 174, 220, 230, 175, 72, 160, 59, 191, 210, 94, 140, 208, 54, 65, 65 >>
SecpG == << << 121, 190, 102, 126, 249, 220, 187, 172, 85, 160, 98, 149, 206, 135, 11, 7, 2, 155, 252, 219, 45, 206, 40, 217, 89, 242, 129, 91, 22, 248, 23, 152 >>,
            << 72, 58, 218, 119, 38, 163, 196, 101, 93, 164, 251, 252, 14, 17, 8, 168, 253, 23, 180, 72, 166, 133, 84, 25, 156, 71, 208, 143, 251, 16, 212, 184 >> >>
SecpHalfN == << 127, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 93, 87, 110, 115, 87, 164, 80, 29, 223, 233, 47, 70, 104, 27, 32, 160 >>

Secp == [p |-> SecpP, a |-> << >>, b |-> << 7 >>, n |-> SecpN, g |-> SecpG]

\* Square root in the field of secp256k1 (p = 3 mod 4): a root if there is one
SecpRootExp == BNDiv(BNAdd(SecpP, << 1 >>), << 4 >>)
SecpRoot(v) == BNPowMod(v, SecpRootExp, SecpP)
\* The y of the given parity for x, if x is the abscissa of a point
SecpLift(x, odd) ==
  LET v == CurveRhs(Secp, x)
      r == SecpRoot(v)
  IN  IF ~BNLt(x, SecpP) \/ BNMulMod(r, r, SecpP) # v THEN No
      ELSE Yes(IF BNIsOdd(r) = odd THEN r ELSE BNSub(SecpP, r))

(* --------------------------- SEC point encoding ------------------------- *)
SecEncode(P, compressed) ==
  IF compressed THEN << IF BNIsOdd(P[2]) THEN 3 ELSE 2 >> \o FixedBE(P[1], 32)
  ELSE << 4 >> \o FixedBE(P[1], 32) \o FixedBE(P[2], 32)
SecDecode(b) ==
  IF Len(b) = 33 /\ b[1] \in {2, 3}
  THEN LET x == NatBE(SubSeq(b, 2, 33))
           y == SecpLift(x, b[1] = 3)
       IN  IF y.ok THEN Yes([P |-> << x, y.v >>, compressed |-> TRUE]) ELSE No
  ELSE IF Len(b) = 65 /\ b[1] = 4
  THEN LET x == NatBE(SubSeq(b, 2, 33))
           y == NatBE(SubSeq(b, 34, 65))
       IN  IF IsPoint(Secp, << x, y >>) THEN Yes([P |-> << x, y >>, compressed |-> FALSE]) ELSE No
  ELSE No

(* ---------------------------------- ECDSA ------------------------------- *)
\* e: the message number (not reduced), Q: public point, (r, s)
EcdsaValid(c, Q, e, r, s) ==
  /\ r # << >> /\ BNLt(r, c.n) /\ s # << >> /\ BNLt(s, c.n)
  /\ LET w == BNInvMod(s, c.n)
         X == CAdd(c, CMul(c, BNMulMod(e, w, c.n), c.g), CMul(c, BNMulMod(r, w, c.n), Q))
     IN  X # Inf /\ BNMod(X[1], c.n) = r
\* The signature with nonce k: << r, s >>
EcdsaSign(c, d, e, k) ==
  LET R == CMul(c, k, c.g)
      r == BNMod(R[1], c.n)
      s == BNMulMod(BNInvMod(k, c.n), BNAddMod(e, BNMulMod(r, d, c.n), c.n), c.n)
  IN  << r, s >>

\* The nonce of a signature (r, s) of e by the secret d, the secret from the nonce, and the
\* nonce from two signatures of different numbers that share it (M_Ecdsa checks the three)
EcdsaNonce(c, d, e, r, s) == BNMulMod(BNInvMod(s, c.n), BNAddMod(e, BNMulMod(r, d, c.n), c.n), c.n)
SecretOfNonce(c, e, r, s, k) == BNMulMod(BNInvMod(r, c.n), BNSubMod(BNMulMod(s, k, c.n), e, c.n), c.n)
SharedNonce(c, e1, s1, e2, s2) == BNMulMod(BNSubMod(e1, e2, c.n), BNInvMod(BNSubMod(s1, s2, c.n), c.n), c.n)

(* ------------------------- RFC 6979 deterministic k --------------------- *)
\* e: the hash as a number of as many bits as the hash function gives
Bits2Nat(c, b) == LET excess == 8 * Len(b) - BNBits(c.n)
                  IN  IF excess > 0 THEN BNDiv(NatBE(b), BNPow2(excess)) ELSE NatBE(b)
\* hf: the hash function used
HashSize(hf) == CASE hf = "sha1" -> 20 [] hf = "sha256" -> 32 [] hf = "sha512" -> 64
HmacBy(hf, K, m) == CASE hf = "sha1" -> Hmac(Sha1, 64, K, m) [] hf = "sha256" -> HmacSha256(K, m) [] hf = "sha512" -> HmacSha512(K, m)
RECURSIVE RfcLoop(_, _, _, _)
RECURSIVE RfcFill(_, _, _, _, _)
RfcFill(hf, K, V, t, size) ==
  IF Len(t) >= size THEN << V, t >>
  ELSE LET V2 == HmacBy(hf, K, V) IN RfcFill(hf, K, V2, t \o V2, size)
RfcLoop(hf, c, K, V) ==
  LET size == (BNBits(c.n) + 7) \div 8
      vt == RfcFill(hf, K, V, << >>, size)
      k == Bits2Nat(c, vt[2])
  IN  IF k # << >> /\ BNLt(k, c.n) THEN k
      ELSE LET K2 == HmacBy(hf, K, Append(vt[1], 0)) IN RfcLoop(hf, c, K2, HmacBy(hf, K2, vt[1]))
RfcNonceBy(hf, c, d, e) ==
  LET size == (BNBits(c.n) + 7) \div 8
      h  == BNMod(Bits2Nat(c, FixedBE(e, HashSize(hf))), c.n)
      x  == FixedBE(d, size) \o FixedBE(h, size)
      Vk0 == Times(1, HashSize(hf))  Kk0 == Times(0, HashSize(hf))
      Kk1 == HmacBy(hf, Kk0, Vk0 \o << 0 >> \o x)
      Vk1 == HmacBy(hf, Kk1, Vk0)
      Kk2 == HmacBy(hf, Kk1, Vk1 \o << 1 >> \o x)
  IN  RfcLoop(hf, c, Kk2, HmacBy(hf, Kk2, Vk1))
RfcNonce(c, d, e) == RfcNonceBy("sha256", c, d, e)
=============================================================================
