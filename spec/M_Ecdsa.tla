------------------------------ MODULE M_Ecdsa -------------------------------
(***************************************************************************)
(* Model for C20: ECDSA on small curves of prime order, for every secret,  *)
(* message number and nonce.  What the signing equation gives verifies,    *)
(* also with the opposite s; the number of valid pairs for a key and       *)
(* message is what counting nonces gives; and the keys under which a       *)
(* signature verifies are those that recovery computes.                    *)
(***************************************************************************)
EXTENDS Curve, Json, FiniteSets
CONSTANTS Curves
VARIABLES c, d, e
vars == << c, d, e >>

Mk(p, a, b, n, x, y) == [ip |-> p, ia |-> a, ib |-> b, in |-> n, ig |-> << x, y >>,
                         p |-> BNOf(p), a |-> BNOf(a), b |-> BNOf(b), n |-> BNOf(n), g |-> << BNOf(x), BNOf(y) >>]
\* Order below, equal to and above the prime
SomeCurves == { Mk(5, 2, 1, 7, 0, 1), Mk(5, 3, 2, 5, 1, 1), Mk(7, 1, 1, 5, 0, 1), Mk(7, 0, 3, 13, 1, 2), Mk(7, 0, 5, 7, 3, 2),
                Mk(11, 1, 5, 11, 0, 4), Mk(11, 2, 7, 7, 6, 2), Mk(13, 0, 6, 7, 2, 1) }
MoreCurves == SomeCurves \cup { Mk(17, 2, 6, 11, 1, 3), Mk(23, 5, 22, 17, 3, 8), Mk(13, 0, 2, 19, 1, 4), Mk(19, 0, 2, 13, 4, 3),
                Mk(13, 7, 6, 11, 1, 1), Mk(11, 2, 4, 17, 0, 2) }
Usable == Curves
OK == /\ CMul(c, c.n, c.g) = Inf /\ IsPoint(c, c.g)
Init == c \in Usable /\ d \in 1..(c.in - 1) /\ e \in 0..c.in
Spec == Init /\ [][FALSE]_vars
Q == CMul(c, BNOf(d), c.g)
E == BNOf(e)
SignedVerifies ==
  \A k \in 1..(c.in - 1) :
    LET w == EcdsaSign(c, BNOf(d), E, BNOf(k)) IN
    (w[1] # BNZero /\ w[2] # BNZero) =>
       /\ EcdsaValid(c, Q, E, w[1], w[2])
       /\ EcdsaValid(c, Q, E, w[1], BNSub(c.n, w[2]))
Pairs == { rs \in (0..(c.in + 1)) \X (0..(c.in + 1)) : EcdsaValid(c, Q, E, BNOf(rs[1]), BNOf(rs[2])) }
\* No valid pair that does not come from a nonce
OnlySigned ==
  \A rs \in Pairs : \E k \in 1..(c.in - 1) : EcdsaSign(c, BNOf(d), E, BNOf(k)) = << BNOf(rs[1]), BNOf(rs[2]) >>
\* A nonce used twice gives the secret away (why C18 asks that no nonce serves two signatures)
NonceGivesSecretAway ==
  \A k \in 1..(c.in - 1) : \A e2 \in 0..(c.in - 1) :
    LET w == EcdsaSign(c, BNOf(d), E, BNOf(k))
        v == EcdsaSign(c, BNOf(d), BNOf(e2), BNOf(k))
    IN  (w[1] # BNZero /\ w[2] # BNZero) =>
          /\ EcdsaNonce(c, BNOf(d), E, w[1], w[2]) = BNOf(k)
          /\ SecretOfNonce(c, E, w[1], w[2], BNOf(k)) = BNOf(d)
          /\ (e2 # e % c.in) => SharedNonce(c, E, w[2], BNOf(e2), v[2]) = BNOf(k)
Emit == PrintT("@" \o ToJson([op |-> "ecdsa", p |-> c.ip, a |-> c.ia, b |-> c.ib, n |-> c.in, g |-> c.ig,
                              q |-> << BNInt(Q[1]), BNInt(Q[2]) >>, d |-> d, e |-> e]))
=============================================================================
