------------------------------- MODULE M_Base -------------------------------
(***************************************************************************)
(* Agreement of the Java overrides with the TLA+ definitions they stand    *)
(* for, and published test vectors of the hash functions.  Run by the      *)
(* setup command and by the thorough tier; a disagreement is an error of   *)
(* the machinery, not of the code under test.                              *)
(***************************************************************************)
EXTENDS Curve, FiniteSets
VARIABLES a, b, phase
vars == << a, b, phase >>

Msg(n, k) == [i \in 1..n |-> (i * 7 + k * 13) % 256]

Samples == { << >>, <<1>>, <<2>>, <<255>>, <<1,0>>, <<255,255>>, <<1,0,0,0>>, <<127,255,255,255>>,
             <<1,2,3,4,5>>, <<255,255,255,255,255,255>>, <<128,0,0,0,0,0,0,1>>,
             << 217, 21, 45, 1, 99, 3, 200, 77, 4 >> }
Init == a \in Samples /\ b \in Samples /\ phase = 0
Next == phase = 0 /\ phase' = 1 /\ UNCHANGED << a, b >>
Spec == Init /\ [][Next]_vars

Agree(x, y) == BNCmpAt_(x, y, IF Len(x) > Len(y) THEN Len(x) ELSE Len(y))

NatOK ==
  /\ IsBN(a)
  /\ BNAdd(a, b) = BNNorm_(BNAddAt_(a, b, 1, 0))
  /\ BNMul(a, b) = BNNorm_(BNMul_(a, b))
  /\ BNCmp(a, b) = Agree(a, b)
  /\ (Agree(a, b) # -1 => BNSub(a, b) = BNNorm_(BNSubAt_(a, b, 1, 0)))
  /\ (b # << >> => /\ BNDiv(a, b) = BNDivMod_(a, b)[1]
                   /\ BNMod(a, b) = BNDivMod_(a, b)[2]
                   /\ BNPowMod(a, b, b) = BNPowMod_(a, b, b))
  /\ BNDigits(a, 58) = BNDigits_(a, 58)
  /\ BNOfDigits(BNDigits_(a, 58), 58) = a
  /\ BNOfDigits(BNDigits_(a, 58), 58) = BNOfDigits_(BNDigits_(a, 58), 58)
  /\ BNNorm(<<0, 0>> \o a) = a
  /\ BNPow2(8 * Len(a)) = BNPow2_(8 * Len(a))
  /\ LET
         p == << 251 >>
     IN  BNInvMod(a, p) = BNPowMod_(BNMod(a, p), BNSub(p, << 2 >>), p)

HashOK ==
  (a = b) =>
    /\ Sha1(a) = Sha1_(a) /\ Sha256(a) = Sha256_(a)
    /\ Sha512(a) = Sha512_(a) /\ Ripemd160(a) = Ripemd160_(a)
LongHashOK ==
  (a = << >> /\ b = << >>) =>
    \A n \in {55, 56, 63, 64, 65, 111, 112, 119, 120, 128, 130} :
      LET m == Msg(n, 5)
      IN  /\ Sha1(m) = Sha1_(m) /\ Sha256(m) = Sha256_(m)
          /\ Sha512(m) = Sha512_(m) /\ Ripemd160(m) = Ripemd160_(m)
\* Points of a small curve and of secp256k1
Small == [p |-> << 251 >>, a |-> << 2 >>, b |-> << 9 >>]
SmallPoints == { Q \in { << BNOf(x), BNOf(y) >> : x \in 0..20, y \in 0..250 } : OnCurve(Small, Q[1], Q[2]) } \cup {Inf}
CurveOK ==
  (a = << >> /\ b = << >>) =>
    /\ \A P, Q \in SmallPoints : PAdd(Small.p, Small.a, P, Q) = PAdd_(Small.p, Small.a, P, Q)
    /\ \A P \in SmallPoints : \A k \in {0, 1, 2, 3, 7, 100, 251, 65537} :
         PMul(Small.p, Small.a, BNOf(k), P) = PMul_(Small.p, Small.a, BNOf(k), P)
    /\ PMul(SecpP, << >>, << 200, 3 >>, SecpG) = PMul_(SecpP, << >>, << 200, 3 >>, SecpG)
    /\ PMul(SecpP, << >>, SecpN, SecpG) = Inf
    /\ IsPoint(Secp, SecpG)
abc == << 97, 98, 99 >>
VectorsOK ==
  /\ SubSeq(Sha1_(abc), 1, 4) = << 169, 153, 62, 54 >>
  /\ SubSeq(Sha256_(abc), 1, 4) = << 186, 120, 22, 191 >>
  /\ SubSeq(Sha512_(abc), 1, 4) = << 221, 175, 53, 161 >>
  /\ SubSeq(Ripemd160_(abc), 1, 4) = << 142, 178, 8, 247 >>
=============================================================================
