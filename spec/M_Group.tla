------------------------------ MODULE M_Group -------------------------------
(***************************************************************************)
(* Model for C20: every nonsingular curve over the fields of the given     *)
(* primes.  The chord-and-tangent law makes its points a group (closed,    *)
(* commutative, associative, with inverses), multiplication is repeated    *)
(* addition, and when the number of points is prime every point other than *)
(* infinity generates it.  Every curve is emitted and its whole tables are *)
(* computed by the real code.                                              *)
(***************************************************************************)
EXTENDS Curve, Json, FiniteSets, SequencesExt
CONSTANTS Primes, AssocUpTo, Coefficients(_)
VARIABLES p, a, b
vars == << p, a, b >>

All(q) == 0..(q - 1)
Few(q) == IF q <= 11 THEN All(q) ELSE {1, 3, q - 3, q - 1}
\* -1: not chosen yet
Init == p \in Primes /\ a = -1 /\ b = -1
Next == \/ a = -1 /\ a' \in Coefficients(p) /\ UNCHANGED << p, b >>
        \/ a # -1 /\ b = -1 /\ b' \in Coefficients(p) /\ UNCHANGED << p, a >>
Spec == Init /\ [][Next]_vars

C == [p |-> BNOf(p), a |-> BNOf(a), b |-> BNOf(b)]
Singular == b = -1 \/ (4 * a * a * a + 27 * b * b) % p = 0
IntPoints == { q \in All(p) \X All(p) : (q[2] * q[2]) % p = (q[1] * q[1] * q[1] + a * q[1] + b) % p }
Pts == { << BNOf(q[1]), BNOf(q[2]) >> : q \in IntPoints } \cup {Inf}
Order == Cardinality(IntPoints) + 1
IsPrime(n) == n > 1 /\ \A d \in 2..(n - 1) : n % d # 0

Group == Singular \/
  /\ \A P \in Pts : CAdd(C, P, Inf) = P /\ CAdd(C, Inf, P) = P /\ CAdd(C, P, PNeg(C, P)) = Inf
  /\ \A P, Q \in Pts : CAdd(C, P, Q) \in Pts /\ CAdd(C, P, Q) = CAdd(C, Q, P)
Associative == Singular \/ p > AssocUpTo \/
  \A P, Q, R \in Pts : CAdd(C, CAdd(C, P, Q), R) = CAdd(C, P, CAdd(C, Q, R))
Multiples == Singular \/
  \A P \in Pts : /\ CMul(C, BNZero, P) = Inf /\ CMul(C, BNOf(Order), P) = Inf
                 /\ \A k \in 0..(Order + 1) : CMul(C, BNOf(k + 1), P) = CAdd(C, CMul(C, BNOf(k), P), P)
Generated == Singular \/ ~IsPrime(Order) \/
  \A P \in Pts \ {Inf} : { CMul(C, BNOf(k), P) : k \in 0..(Order - 1) } = Pts
Emit == Singular \/
  PrintT("@" \o ToJson([op |-> "curve", p |-> p, a |-> a, b |-> b, n |-> Order, prime |-> IsPrime(Order),
                        pts |-> SetToSeq(IntPoints)]))
=============================================================================
