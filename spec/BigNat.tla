------------------------------- MODULE BigNat -------------------------------
(***************************************************************************)
(* Natural numbers of any size, as big-endian sequences of bytes without   *)
(* leading zeros (zero is << >>).  TLC's own integers have 32 bits, so     *)
(* everything in the specification that can exceed them (secrets, curve    *)
(* coordinates, amounts, script numbers, hash values) is written with      *)
(* these operators.                                                        *)
(*                                                                         *)
(* Every operator below has a complete TLA+ definition.  Java overrides    *)
(* (java/verif/Overrides.java) evaluate the same operators faster; the     *)
(* model M_Base checks that both agree.                                    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences

Byte == 0..255

\* Strip leading zeros.
RECURSIVE BNNorm_(_)
BNNorm_(s) == IF Len(s) > 0 /\ s[1] = 0 THEN BNNorm_(Tail(s)) ELSE s
BNNorm(s) == BNNorm_(s)

IsBN(s) == /\ \A i \in 1..Len(s) : s[i] \in Byte
           /\ (Len(s) > 0 => s[1] # 0)

RECURSIVE BNOf_(_)
BNOf_(n) == IF n = 0 THEN << >> ELSE Append(BNOf_(n \div 256), n % 256)
\* The number n (a TLC integer, n >= 0).
BNOf(n) == BNOf_(n)

BNZero == << >>
BNOne  == << 1 >>

\* The value as a TLC integer; only for numbers below 2^31.
RECURSIVE BNInt_(_)
BNInt_(s) == IF s = << >> THEN 0 ELSE 256 * BNInt_(SubSeq(s, 1, Len(s) - 1)) + s[Len(s)]
BNInt(s) == BNInt_(s)

\* Byte number i counted from the least significant end (i >= 1), 0 beyond the top.
BNDigit(s, i) == IF i <= Len(s) THEN s[Len(s) + 1 - i] ELSE 0

RECURSIVE BNCmpAt_(_, _, _)
BNCmpAt_(a, b, i) ==
  IF i = 0 THEN 0
  ELSE IF BNDigit(a, i) < BNDigit(b, i) THEN -1
  ELSE IF BNDigit(a, i) > BNDigit(b, i) THEN 1
  ELSE BNCmpAt_(a, b, i - 1)
\* -1, 0 or 1
BNCmp(a, b) == BNCmpAt_(a, b, IF Len(a) > Len(b) THEN Len(a) ELSE Len(b))
BNLt(a, b) == BNCmp(a, b) = -1
BNLe(a, b) == BNCmp(a, b) # 1

RECURSIVE BNAddAt_(_, _, _, _)
BNAddAt_(a, b, i, carry) ==
  IF i > Len(a) /\ i > Len(b)
  THEN IF carry = 0 THEN << >> ELSE << carry >>
  ELSE LET t == BNDigit(a, i) + BNDigit(b, i) + carry
       IN  Append(BNAddAt_(a, b, i + 1, t \div 256), t % 256)
BNAdd(a, b) == BNNorm_(BNAddAt_(a, b, 1, 0))

RECURSIVE BNSubAt_(_, _, _, _)
BNSubAt_(a, b, i, borrow) ==
  IF i > Len(a) THEN << >>
  ELSE LET t == BNDigit(a, i) - BNDigit(b, i) - borrow
       IN  Append(BNSubAt_(a, b, i + 1, IF t < 0 THEN 1 ELSE 0), IF t < 0 THEN t + 256 ELSE t)
\* a - b, for a >= b
BNSub(a, b) == BNNorm_(BNSubAt_(a, b, 1, 0))

RECURSIVE BNMulDigit_(_, _, _, _)
BNMulDigit_(a, d, i, carry) ==
  IF i > Len(a) THEN IF carry = 0 THEN << >> ELSE << carry >>
  ELSE LET t == BNDigit(a, i) * d + carry
       IN  Append(BNMulDigit_(a, d, i + 1, t \div 256), t % 256)

RECURSIVE BNMul_(_, _)
BNMul_(a, b) ==
  IF b = << >> THEN << >>
  ELSE BNAdd(Append(BNMul_(a, SubSeq(b, 1, Len(b) - 1)), 0), BNMulDigit_(a, b[Len(b)], 1, 0))
BNMul(a, b) == BNNorm_(BNMul_(a, b))

\* Largest digit q in 0..255 with q * b <= r
BNQuoDigit_(r, b) == CHOOSE q \in Byte : /\ BNCmp(BNMul(b, BNOf_(q)), r) # 1
                                         /\ BNCmp(BNMul(b, BNOf_(q + 1)), r) = 1

RECURSIVE BNDivMod_(_, _)
BNDivMod_(a, b) ==
  IF a = << >> THEN << << >>, << >> >>
  ELSE LET qr == BNDivMod_(SubSeq(a, 1, Len(a) - 1), b)
           r  == BNNorm_(Append(qr[2], a[Len(a)]))
           q  == BNQuoDigit_(r, b)
       IN  << BNNorm_(Append(qr[1], q)), BNSub(r, BNMul(b, BNOf_(q))) >>
\* Quotient and remainder, for b # 0
BNDiv(a, b) == BNDivMod_(a, b)[1]
BNMod(a, b) == BNDivMod_(a, b)[2]

BNAddMod(a, b, m) == BNMod(BNAdd(a, b), m)
BNSubMod(a, b, m) == BNMod(BNAdd(BNMod(a, m), BNSub(m, BNMod(b, m))), m)
BNMulMod(a, b, m) == BNMod(BNMul(a, b), m)

BNIsOdd(a) == a # << >> /\ a[Len(a)] % 2 = 1
BNHalf(a)  == BNDiv(a, << 2 >>)

RECURSIVE BNPowMod_(_, _, _)
BNPowMod_(a, e, m) ==
  IF e = << >> THEN BNMod(BNOne, m)
  ELSE LET h == BNPowMod_(a, BNHalf(e), m)
           q == BNMulMod(h, h, m)
       IN  IF BNIsOdd(e) THEN BNMulMod(q, a, m) ELSE q
BNPowMod(a, e, m) == BNPowMod_(a, e, m)

\* Inverse of a modulo the prime m (0 for a = 0)
BNInvMod(a, m) == BNPowMod_(BNMod(a, m), BNSub(m, << 2 >>), m)

\* Exactly n bytes, big-endian; only if the number fits (Len(a) <= n)
BNFixed(a, n) == [i \in 1..(n - Len(a)) |-> 0] \o a

RECURSIVE BNPow2_(_)
BNPow2_(k) == IF k = 0 THEN BNOne ELSE BNMul(<< 2 >>, BNPow2_(k - 1))
BNPow2(k) == BNPow2_(k)

\* Number of bits
BNBits(a) == IF a = << >> THEN 0
             ELSE 8 * (Len(a) - 1) + (CHOOSE k \in 1..8 : /\ a[1] >= 2^(k-1) /\ a[1] < 2^k)

RECURSIVE BNOfDigits_(_, _)
BNOfDigits_(ds, base) ==
  IF ds = << >> THEN << >>
  ELSE BNAdd(BNMul(BNOfDigits_(SubSeq(ds, 1, Len(ds) - 1), base), BNOf_(base)), BNOf_(ds[Len(ds)]))
\* The number whose digits in the given base (2..256) are ds, most significant first
BNOfDigits(ds, base) == BNOfDigits_(ds, base)

RECURSIVE BNDigits_(_, _)
BNDigits_(a, base) ==
  IF a = << >> THEN << >>
  ELSE Append(BNDigits_(BNDiv(a, BNOf_(base)), base), BNInt_(BNMod(a, BNOf_(base))))
\* The digits of a in the given base, most significant first, no leading zeros
BNDigits(a, base) == BNDigits_(a, base)
=============================================================================
