------------------------------- MODULE Units --------------------------------
(***************************************************************************)
(* Amounts of money: whole satoshis, the other units as IEEE 754 doubles.  *)
(* A positive double is a record m, k (2^52 <= m < 2^53) of value m / 2^k; *)
(* k is an ordinary integer.                                               *)
(***************************************************************************)
EXTENDS Codec

Pow10(n) == TLCEval(BNOf(10^n))
Unit_bits == Pow10(2)
Unit_mbtc == Pow10(5)
Unit_btc  == Pow10(8)
MaxMoney  == BNMul(BNOf(21000000), Unit_btc)

T52 == BNPow2(52)
T53 == BNPow2(53)
Two(k) == BNPow2(k)
\* m * 2^k for any integer k, as numerator and denominator
Scaled(m, k) == IF k >= 0 THEN << BNMul(m, Two(k)), BNOne >> ELSE << m, Two(0 - k) >>

\* The integer nearest to n / d, ties to even
RoundEven(n, d) ==
  LET q == BNDiv(n, d)
      r2 == BNMul(<< 2 >>, BNMod(n, d))
  IN  IF BNLt(r2, d) \/ (r2 = d /\ ~BNIsOdd(q)) THEN q ELSE BNAdd(q, BNOne)
\* The double nearest to n / d (n, d > 0; no overflow or underflow for the numbers here)
NearestAt(n, d, k) == LET x == Scaled(n, k) IN RoundEven(x[1], BNMul(x[2], d))
Nearest(n, d) ==
  LET k0 == 53 - (BNBits(n) - BNBits(d))            \* n / d * 2^k0 lies in (2^52, 2^54)
      x  == Scaled(n, k0)
      k  == IF BNLt(BNDiv(x[1], BNMul(x[2], d)), T53) THEN k0 ELSE k0 - 1
      m  == NearestAt(n, d, k)
  IN  IF m = T53 THEN [m |-> T52, k |-> k - 1] ELSE [m |-> m, k |-> k]

\* The double in eight bytes
IsZeroDouble(b) == b = Times(0, 8)
IsPlainDouble(b) == b[1] < 128 /\ LET e == b[1] * 16 + b[2] \div 16 IN e \in 1..2046
OfBytes(b) == [m |-> BNAdd(T52, BNNorm(<< b[2] % 16 >> \o SubSeq(b, 3, 8))), k |-> 1075 - (b[1] * 16 + b[2] \div 16)]

\* Double arithmetic: product of a double with a whole number, and rounding to a whole number
FMulInt(x, n) == LET s == Scaled(BNMul(x.m, n), 0 - x.k) IN Nearest(s[1], s[2])
FRound(x) == LET s == Scaled(x.m, 0 - x.k) IN RoundEven(s[1], s[2])
FTrunc(x) == LET s == Scaled(x.m, 0 - x.k) IN BNDiv(s[1], s[2])

(* --------------------------- decimal notation --------------------------- *)
Digits(n) == IF n = << >> THEN << 48 >> ELSE LET ds == BNDigits(n, 10) IN TLCEval([i \in 1..Len(ds) |-> ds[i] + 48])
\* Exactly w digits
DigitsFixed(n, w) == LET ds == BNDigits(n, 10) IN Times(48, w - Len(ds)) \o TLCEval([i \in 1..Len(ds) |-> ds[i] + 48])

\* A plain decimal: digits, perhaps a point and digits. Its value is v / 10^scale.
IsDigit(x) == x \in 48..57
IsPlainDecimal(t) ==
  /\ t # << >>
  /\ \A i \in 1..Len(t) : IsDigit(t[i]) \/ t[i] = 46
  /\ \A i, j \in 1..Len(t) : t[i] = 46 /\ t[j] = 46 => i = j
  /\ \E i \in 1..Len(t) : IsDigit(t[i])
DecimalValue(t) ==
  LET ds == SelectSeq(t, IsDigit)
      pos == { i \in 1..Len(t) : t[i] = 46 }
  IN  [v |-> BNOfDigits(TLCEval([i \in 1..Len(ds) |-> ds[i] - 48]), 10),
       scale |-> IF pos = {} THEN 0 ELSE Len(t) - (CHOOSE i \in pos : TRUE)]
RECURSIVE BN10_(_)
BN10_(n) == IF n = 0 THEN BNOne ELSE BNMul(<< 10 >>, BN10_(n - 1))
\* Is it exactly this number of satoshis?
IsSatoshis(t, s) ==
  LET d == DecimalValue(t)
  IN  BNMul(d.v, Unit_btc) = BNMul(s, BN10_(d.scale))
\* The number of satoshis that it is nearest to
NearestSatoshis(t) ==
  LET d == DecimalValue(t)
  IN  RoundEven(BNMul(d.v, Unit_btc), BN10_(d.scale))
=============================================================================
