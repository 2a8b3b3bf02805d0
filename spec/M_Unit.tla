------------------------------- MODULE M_Unit -------------------------------
(***************************************************************************)
(* Model for C21: amounts of the form lead * base^exponent + offset over   *)
(* the whole range of money.  Expressing an amount as the nearest double   *)
(* in any unit, multiplying back in double arithmetic and rounding gives   *)
(* the amount again, so the property can be had; the decimal notation of   *)
(* an amount is exact.  Every amount is replayed on the real code.         *)
(***************************************************************************)
EXTENDS Units, Json
CONSTANTS Leads, Offsets
VARIABLES base, expo, lead, off
vars == << base, expo, lead, off >>

FewOffsets == {-2, -1, 1, 2, 50}
ManyOffsets == {-51, -50, -3, -2, -1, 1, 2, 3, 7, 49, 50, 51, 99}
RECURSIVE BNPow_(_, _)
BNPow_(b, n) == IF n = 0 THEN BNOne ELSE BNMul(BNOf(b), BNPow_(b, n - 1))
Init == base \in {2, 10} /\ lead \in Leads /\ expo = -1 /\ off = 0
Next == \/ expo = -1 /\ expo' \in 0..(IF base = 2 THEN 51 ELSE 15) /\ UNCHANGED << base, lead, off >>
        \/ expo # -1 /\ off = 0 /\ off' \in Offsets /\ UNCHANGED << base, lead, expo >>
Spec == Init /\ [][Next]_vars

Main == BNMul(BNOf(lead), BNPow_(base, expo))
\* off = 0 stands for no offset yet
S == IF off >= 0 THEN BNAdd(Main, BNOf(off)) ELSE IF BNLt(Main, BNOf(0 - off)) THEN << >> ELSE BNSub(Main, BNOf(0 - off))
InRange == expo # -1 /\ BNLe(S, MaxMoney) /\ S # << >>
RoundTrip == InRange =>
  \A d \in {Unit_bits, Unit_mbtc, Unit_btc} : FRound(FMulInt(Nearest(S, d), d)) = S
Notation == InRange =>
  LET t == Digits(BNDiv(S, Unit_btc)) \o << 46 >> \o DigitsFixed(BNMod(S, Unit_btc), 8)
  IN  IsPlainDecimal(t) /\ IsSatoshis(t, S) /\ NearestSatoshis(t) = S
Emit == InRange => PrintT("@" \o ToJson([op |-> "amount", s |-> S]))
=============================================================================
