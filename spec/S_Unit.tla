------------------------------- MODULE S_Unit -------------------------------
(***************************************************************************)
(* What the code may do: units (C21).                                      *)
(***************************************************************************)
EXTENDS Units, Obs

\* Is the observation r the nearest double to s / d (or exactly that number, if it is an integer)
IsNearest(r, s, d) ==
  \/ r.k = "float" /\ IF s = << >> THEN IsZeroDouble(r.v) ELSE IsPlainDouble(r.v) /\ OfBytes(r.v) = Nearest(s, d)
  \/ r.k = "int" /\ r.neg = 0 /\ BNMul(r.v, d) = s

\* u: the fields of a Unit (satoshis, bits, mbtc, btc)
Fields(u, s) ==
  /\ u.k = "unit"
  /\ u.satoshis = ONat(s)
  /\ IsNearest(u.bits, s, Unit_bits) /\ IsNearest(u.mbtc, s, Unit_mbtc) /\ IsNearest(u.btc, s, Unit_btc)

\* the Unit of s satoshis, and the Units made from each of its expressions
UnitOf(ev) ==
  \* a.s: list of amounts, r: list of [u, bits, mbtc, btc]
  Clause("C21:a Unit of satoshis has the nearest numbers",
    \A j \in 1..Len(ev.a.s) : Fields(ev.r[j].u, ev.a.s[j]))
  \cup Clause("C21:a Unit of bits gives back the satoshis", \A j \in 1..Len(ev.a.s) : Fields(ev.r[j].bits, ev.a.s[j]))
  \cup Clause("C21:a Unit of millibits gives back the satoshis", \A j \in 1..Len(ev.a.s) : Fields(ev.r[j].mbtc, ev.a.s[j]))
  \cup Clause("C21:a Unit of bitcoin gives back the satoshis", \A j \in 1..Len(ev.a.s) : Fields(ev.r[j].btc, ev.a.s[j]))

\* Any whole number: exactly that many satoshis; a negative amount within the money supply is the
\* mirror image of the positive one
Flip(r) == IF r.k = "float" THEN [r EXCEPT !.v[1] = (@ + 128) % 256]
           ELSE IF r.k = "int" THEN [r EXCEPT !.neg = IF r.v = << >> THEN 0 ELSE 1 - @] ELSE r
Mirror(u) == IF u.k = "unit" THEN [k |-> "unit", satoshis |-> Flip(u.satoshis), bits |-> Flip(u.bits), mbtc |-> Flip(u.mbtc), btc |-> Flip(u.btc)]
             ELSE u
WholeOk(x, e) ==
  /\ e.u.k = "unit" /\ e.u.satoshis = [k |-> "int", neg |-> IF x.neg /\ x.v # << >> THEN 1 ELSE 0, v |-> x.v]
  /\ BNLe(x.v, MaxMoney) => \A u \in {e.u, e.bits, e.mbtc, e.btc} : Fields(IF x.neg /\ x.v # << >> THEN Mirror(u) ELSE u, x.v)
UnitWhole(ev) ==
  Clause("C21:a Unit of any whole number of satoshis, positive or negative, keeps it", \A j \in 1..Len(ev.a.s) : WholeOk(ev.a.s[j], ev.r[j]))

\* a.unit given as a double or integer that is the nearest to a.s (checked here), or whole
UnitGiven(ev) ==
  LET d == CASE ev.a.unit = "bits" -> Unit_bits [] ev.a.unit = "mbtc" -> Unit_mbtc [] OTHER -> Unit_btc
  IN  IF IsNearest(ev.given, ev.a.s, d)
      THEN Clause("C21:a Unit made from an expression gives back the satoshis", Fields(ev.r, ev.a.s))
      ELSE {}

Rat(x) == << x.n, Two(x.j) >>                       \* n / 2^j
UnitFiat(ev) ==
  LET v == Rat(ev.a.value)  r == Rat(ev.a.rate)
      n == BNMul(BNMul(v[1], r[2]), Unit_btc)
      d == BNMul(v[2], r[1])
      got == BNMul(ev.r.satoshis.v, d)
      diff == IF BNLt(got, n) THEN BNSub(n, got) ELSE BNSub(got, n)
  IN  Clause("C21:from_fiat divides by the rate",
        /\ ev.r.k = "unit" /\ ev.r.satoshis.k = "int" /\ ev.r.satoshis.neg = 0
        /\ BNLe(BNMul(diff, Two(51)), BNAdd(BNMul(d, Two(50)), n)))
UnitRate(ev) ==
  LET r == Rat(ev.a.rate)
      n == BNMul(ev.a.s, r[1])
      d == BNMul(Unit_btc, r[2])
      x == IF ev.r.k = "float" /\ IsPlainDouble(ev.r.v)
           THEN LET f == OfBytes(ev.r.v) IN Scaled(f.m, 0 - f.k)
           ELSE IF ev.r.k = "int" THEN << ev.r.v, BNOne >> ELSE << << >>, BNOne >>
      a == BNMul(x[1], d)  b == BNMul(n, x[2])
      diff == IF BNLt(a, b) THEN BNSub(b, a) ELSE BNSub(a, b)
  IN  Clause("C21:at_rate multiplies by the rate",
        /\ ev.r.k \in {"float", "int"}
        /\ n = << >> => ev.r \in {ONat(<< >>), [k |-> "float", v |-> Times(0, 8)]}
        /\ BNLe(BNMul(diff, Two(51)), b))

Unit_Failing(st, ev) ==
  CASE ev.op = "nothing" -> Clause("C21:a Unit of no amount is refused", ev.r.k = "err")
    [] ev.op = "units" -> UnitOf(ev)
    [] ev.op = "whole" -> UnitWhole(ev)
    [] ev.op = "given" -> UnitGiven(ev)
    [] ev.op = "fiat"  -> UnitFiat(ev)
    [] ev.op = "rate"  -> UnitRate(ev)
=============================================================================
