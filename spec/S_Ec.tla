-------------------------------- MODULE S_Ec --------------------------------
(***************************************************************************)
(* What the code may do: the bundled curve arithmetic (C20).  Small curves *)
(* are given with ordinary numbers and answered with whole tables (points  *)
(* as << x, y >>, infinity as << >>, << -1 >> for a call that fails);      *)
(* large numbers as in the other specifications.                           *)
(***************************************************************************)
EXTENDS Curve, Obs, FiniteSets

ModP(n, p) == ((n % p) + p) % p
\* A curve given with ordinary numbers; a may be negative
Small(a) == [p |-> BNOf(a.p), a |-> BNOf(ModP(a.a, a.p)), b |-> BNOf(ModP(a.b, a.p)),
             n |-> BNOf(a.n), g |-> IF a.g = << >> THEN Inf ELSE << BNOf(a.g[1]), BNOf(a.g[2]) >>]
Pt(q) == IF q = << >> THEN Inf ELSE << BNOf(q[1]), BNOf(q[2]) >>
Unpt(P) == IF P = Inf THEN << >> ELSE << BNInt(P[1]), BNInt(P[2]) >>
OnSmall(a, x, y) == OnCurve(Small(a), BNOf(x), BNOf(y))
SmallPoints(a) == { << x, y >> : x \in 0..(a.p - 1), y \in 0..(a.p - 1) } \cap
                  { q \in (0..(a.p - 1)) \X (0..(a.p - 1)) : OnSmall(a, q[1], q[2]) }

EcGroup(ev) ==
  LET c == Small(ev.a)
      Q == ev.a.pts
      n == Len(Q)
  IN  Clause("C20:addition is that of the curve group",
        \A i, j \in 1..n : ev.r.add[i][j] = Unpt(CAdd(c, Pt(Q[i]), Pt(Q[j]))))
      \cup Clause("C20:doubling is that of the curve group",
        \A i \in 1..n : ev.r.dbl[i] = Unpt(CAdd(c, Pt(Q[i]), Pt(Q[i]))))
      \cup Clause("C20:multiplication is that of the curve group",
        \A i \in 1..n : \A k \in 1..Len(ev.a.ks) :
          /\ ev.a.ks[k] >= 0 => ev.r.mul[i][k] = Unpt(CMul(c, BNOf(ev.a.ks[k]), Pt(Q[i])))
          /\ ev.a.n > 0 => ev.r.omul[i][k] = Unpt(CMul(c, BNOf(ModP(ev.a.ks[k], ev.a.n)), Pt(Q[i]))))
      \cup Clause("C20:equality of points", \A i, j \in 1..n : ev.r.eq[i][j] = (IF Q[i] = Q[j] THEN 1 ELSE 0))

EcMember(ev) ==
  Clause("C20:is_public_pair_valid answers yes exactly for points",
    /\ RangeOf(ev.r.yes) = SmallPoints(ev.a)
    /\ ev.r.bad = << >>)
  \cup Clause("C20:Point is made exactly of the points of the curve", RangeOf(ev.r.made) = SmallPoints(ev.a))
EcLift(ev) ==
  LET S == SmallPoints(ev.a) IN
  Clause("C20:public_pair_for_x gives the point of the requested parity",
    \A q \in S : q[2] # 0 => ev.r[IF q[2] % 2 = 0 THEN "even" ELSE "odd"][q[1] + 1] = q)
EcInverse(ev) ==
  LET m == ev.a.m
      ok(x, y) == IF \E z \in 0..(m - 1) : (ModP(x, m) * z) % m = 1 THEN y \in 1..(m - 1) /\ (ModP(x, m) * y) % m = 1 ELSE y = -1
  IN  Clause("C20:inverse_mod", \A k \in 1..Len(ev.a.xs) : ok(ev.a.xs[k], ev.r[k]))
EcSqrt(ev) ==
  LET p == ev.a.p
      Squares == { (z * z) % p : z \in 0..(p - 1) }
  IN  Clause("C20:modular_sqrt",
        \A k \in 1..Len(ev.a.xs) :
          LET x == ModP(ev.a.xs[k], p)  y == ev.r[k]
          IN  IF x \in Squares THEN y \in 0..(p - 1) /\ (y * y) % p = x ELSE y = 0)
EcVerify(ev) ==
  LET c == Small(ev.a)
      valid == { rs \in (0..(ev.a.n + 1)) \X (0..(ev.a.n + 1)) :
                   EcdsaValid(c, Pt(ev.a.q), BNOf(ev.a.e), BNOf(rs[1]), BNOf(rs[2])) }
  IN  Clause("C20:verify accepts exactly the valid pairs", RangeOf(ev.r) = valid)
EcRecover(ev) ==
  LET c == Small(ev.a)
      keys(s) == { Q \in SmallPoints(ev.a) : EcdsaValid(c, Pt(Q), BNOf(ev.a.e), BNOf(ev.a.r), BNOf(s)) }
  IN  Clause("C20:key recovery gives the keys under which the signature verifies",
        \A s \in 1..(ev.a.n - 1) : RangeOf(ev.r[s]) = keys(s))
OPoint(P) == IF P = Inf THEN ONone ELSE OList(<< ONat(P[1]), ONat(P[2]) >>)
\* Signing on any curve: the nonce of RFC 6979; s or its opposite
SignOK(c, d, e, r) ==
  LET k == RfcNonce(c, d, e)
      w == EcdsaSign(c, d, e, k)
      Q == CMul(c, d, c.g)
      pair == IF r.k = "list" /\ Len(r.items) = 2 /\ r.items[1].k = "int" /\ r.items[2].k = "int"
                 /\ r.items[1].neg = 0 /\ r.items[2].neg = 0
              THEN << r.items[1].v, r.items[2].v >> ELSE << >>
  IN  IF w[1] = BNZero \/ w[2] = BNZero
      THEN Refused(r) \/ (pair # << >> /\ EcdsaValid(c, Q, e, pair[1], pair[2]))
      ELSE pair = w \/ pair = << w[1], BNSub(c.n, w[2]) >>
EcSign(ev) == Clause("C20:sign uses the nonce of RFC 6979", SignOK(Small(ev.a), BNOf(ev.a.d), NatBE(ev.a.e), ev.r))
              \cup Clause("C20:what sign makes verifies", ev.back \in {OBool(TRUE), ONone})
              \cup Clause("C20:the public pair of a secret", ev.pub = OPoint(CMul(Small(ev.a), BNOf(ev.a.d), Small(ev.a).g)))
EcNonce(ev) == Clause("C20:deterministic_generate_k",
                 ev.r = ONat(RfcNonceBy(ev.a.h, [n |-> ev.a.n], ev.a.d, ev.a.e)))

(* secp256k1 *)
BigPt(q) == IF q = << >> THEN Inf ELSE << q[1], q[2] >>
SecpAdd(ev) == Clause("C20:addition is that of the curve group", ev.r = OPoint(CAdd(Secp, BigPt(ev.a.P), BigPt(ev.a.Q))))
SecpMul(ev) ==
  LET k == IF ev.a.k.neg = 1 THEN BNSubMod(BNZero, ev.a.k.v, SecpN) ELSE ev.a.k.v
  IN  Clause("C20:multiplication is that of the curve group", ev.r = OPoint(CMul(Secp, k, BigPt(ev.a.P))))
SecpParams(ev) ==
  Clause("C20:the parameters of secp256k1",
    ev.r = OList(<< ONat(SecpP), ONat(<< >>), ONat(<< 7 >>), ONat(SecpN), ONat(SecpG[1]), ONat(SecpG[2]) >>))
SecpLifts(ev) ==
  LET y == SecpLift(ev.a.x, ev.a.odd)
  IN  IF y.ok THEN Clause("C20:public_pair_for_x gives the point of the requested parity", ev.r = OPoint(<< ev.a.x, y.v >>)) ELSE {}
SecpSigns(ev) == Clause("C20:sign uses the nonce of RFC 6979", SignOK(Secp, ev.a.d, ev.a.e, ev.r))
                 \cup Clause("C20:what sign makes verifies", ev.back = OBool(TRUE))
SecpVerifies(ev) ==
  LET ok == ev.a.r.neg = 0 /\ ev.a.s.neg = 0 /\ EcdsaValid(Secp, BigPt(ev.a.Q), ev.a.e, ev.a.r.v, ev.a.s.v)
  IN  Clause("C20:verify accepts exactly the valid pairs", ev.r = OBool(ok))
\* The keys that a signature can come from: one for every point with x = r modulo n
SecpKeys(e, r, s) ==
  LET xs == {r} \cup {BNAdd(r, SecpN)}
      Rs == { << x, SecpLift(x, o).v >> : x \in {z \in xs : SecpLift(z, TRUE).ok}, o \in {TRUE, FALSE} }
      w == BNInvMod(r, SecpN)
      key(R) == CAdd(Secp, CMul(Secp, BNMulMod(s, w, SecpN), R), PNeg(Secp, CMul(Secp, BNMulMod(e, w, SecpN), SecpG)))
  IN  { key(R) : R \in Rs } \ {Inf}
SecpRecovers(ev) ==
  Clause("C20:key recovery gives the keys under which the signature verifies",
    /\ ev.r.k = "list"
    /\ RangeOf(ev.r.items) = { OPoint(Q) : Q \in SecpKeys(ev.a.e, ev.a.r, ev.a.s) })
BigInverse(ev) ==
  LET x == IF ev.a.x.neg = 1 THEN BNSubMod(BNZero, ev.a.x.v, ev.a.m) ELSE BNMod(ev.a.x.v, ev.a.m)
  IN  Clause("C20:inverse_mod", IF x = BNZero THEN Refused(ev.r) ELSE ev.r = ONat(BNInvMod(x, ev.a.m)))
BigSqrt(ev) ==
  LET p == ev.a.p
      square == ev.a.x = BNZero \/ BNPowMod(ev.a.x, BNHalf(BNSub(p, BNOne)), p) = BNOne
  IN  Clause("C20:modular_sqrt",
        /\ ev.r.k = "int" /\ ev.r.neg = 0
        /\ IF square THEN BNLt(ev.r.v, p) /\ BNMulMod(ev.r.v, ev.r.v, p) = ev.a.x ELSE ev.r.v = BNZero)

Ec_Failing(st, ev) ==
  CASE ev.op = "group"   -> EcGroup(ev)
    [] ev.op = "member"  -> EcMember(ev)
    [] ev.op = "lift"    -> EcLift(ev)
    [] ev.op = "inverse" -> EcInverse(ev)
    [] ev.op = "sqrt"    -> EcSqrt(ev)
    [] ev.op = "verify"  -> EcVerify(ev)
    [] ev.op = "recover" -> EcRecover(ev)
    [] ev.op = "sign"    -> EcSign(ev)
    [] ev.op = "nonce"   -> EcNonce(ev)
    [] ev.op = "bigadd"  -> SecpAdd(ev)
    [] ev.op = "bigmul"  -> SecpMul(ev)
    [] ev.op = "params"  -> SecpParams(ev)
    [] ev.op = "biglift" -> SecpLifts(ev)
    [] ev.op = "bigsign" -> SecpSigns(ev)
    [] ev.op = "bigverify" -> SecpVerifies(ev)
    [] ev.op = "bigrecover" -> SecpRecovers(ev)
    [] ev.op = "biginverse" -> BigInverse(ev)
    [] ev.op = "bigsqrt" -> BigSqrt(ev)
=============================================================================
