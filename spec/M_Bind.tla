------------------------------- MODULE M_Bind -------------------------------
(***************************************************************************)
(* Model for C18: a signature is made with some key, digest and nonce,     *)
(* then altered or not, then presented for some key and digest.  It is     *)
(* valid exactly if it is presented for the key and digest it was made     *)
(* with, as (r, s) or (r, n - s).  Every presentation is replayed.         *)
(***************************************************************************)
EXTENDS Tx, Json
CONSTANTS Secrets, Digests, Nonces
VARIABLES stage, d, e, k, alt, d2, e2
vars == << stage, d, e, k, alt, d2, e2 >>

SomeSecrets == { << 1 >>, << 2 >>, BNSub(SecpN, << 1 >>) }
SomeDigests == { Times(0, 32), Times(0, 31) \o << 1 >>, SecpN, Times(255, 32) }
MoreDigests == SomeDigests \cup { FixedBE(BNSub(SecpN, << 1 >>), 32), Times(128, 32), << 128 >> \o Times(0, 31) }
MoreSecrets == SomeSecrets \cup { << 3 >>, Times(77, 32), SecpHalfN }
\* nonces: 1, and one whose point has an x with leading zero byte is found by the workload
SomeNonces == { << 201 >>, << 77, 3 >>, Times(99, 32) }
Alterations == { "none", "high", "r+1", "s+1", "swap", "r=0", "s=0", "r+n", "s+n", "r=n", "s=n" }

Init == /\ stage = "made" /\ d \in Secrets /\ e \in Digests /\ k \in Nonces
        /\ alt = "none" /\ d2 = d /\ e2 = e
Alter == /\ stage = "made" /\ stage' = "altered" /\ \E x \in Alterations : alt' = x
         /\ UNCHANGED << d, e, k, d2, e2 >>
Present == /\ stage = "altered" /\ stage' = "presented"
           /\ \/ d2' \in Secrets /\ e2' = e2
              \/ e2' \in Digests /\ d2' = d2
           /\ UNCHANGED << d, e, k, alt >>
Next == Alter \/ Present
Spec == Init /\ [][Next]_vars

Pair == LET x == EcdsaSign(Secp, d, NatBE(e), k) IN
  CASE alt = "none" -> x
    [] alt = "high" -> << x[1], BNSub(SecpN, x[2]) >>
    [] alt = "r+1" -> << BNAddMod(x[1], << 1 >>, SecpN), x[2] >>
    [] alt = "s+1" -> << x[1], BNAddMod(x[2], << 1 >>, SecpN) >>
    [] alt = "swap" -> << x[2], x[1] >>
    [] alt = "r=0" -> << << >>, x[2] >>
    [] alt = "s=0" -> << x[1], << >> >>
    [] alt = "r+n" -> << BNAdd(x[1], SecpN), x[2] >>
    [] alt = "s+n" -> << x[1], BNAdd(x[2], SecpN) >>
    [] alt = "r=n" -> << SecpN, x[2] >>
    [] alt = "s=n" -> << x[1], SecpN >>

Valid == EcdsaValid(Secp, PubPoint(d2), NatBE(e2), Pair[1], Pair[2])
Binds == stage = "presented" =>
  (Valid <=> /\ alt \in {"none", "high"}
             /\ BNMod(NatBE(e2), SecpN) = BNMod(NatBE(e), SecpN)
             \* for the digest 0 the opposite key does as well: the equation is even in it
             /\ d2 = d \/ (BNMod(NatBE(e), SecpN) = BNZero /\ d2 = BNSub(SecpN, d)))
Emit == stage = "presented" =>
  PrintT("@" \o ToJson([op |-> "verify", n |-> [neg |-> 0, v |-> d2], d |-> e2, b |-> DerSig(Pair[1], Pair[2])]))
=============================================================================
