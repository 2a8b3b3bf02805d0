------------------------------- MODULE Codec --------------------------------
(***************************************************************************)
(* The primitive encodings everything else is made of: hexadecimal,        *)
(* base58check, fixed and variable length integers, script numbers.        *)
(* Texts are sequences of code points.                                     *)
(***************************************************************************)
EXTENDS Crypto

Last(q)  == q[Len(q)]
Front(q) == SubSeq(q, 1, Len(q) - 1)
IsPrefixOf(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a
RangeOf(q) == {q[i] : i \in 1..Len(q)}

Yes(v) == [ok |-> TRUE, v |-> v]
No     == [ok |-> FALSE, v |-> << >>]

(* ------------------------------ hexadecimal ----------------------------- *)
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
HexText(b) ==
  TLCEval([i \in 1..(2 * Len(b)) |->
     LET x == b[(i + 1) \div 2] IN HexDigit(IF i % 2 = 1 THEN x \div 16 ELSE x % 16)])
HexVal(c) == CASE c \in 48..57  -> c - 48
               [] c \in 97..102 -> c - 87
               [] c \in 65..70  -> c - 55
               [] OTHER         -> -1
IsHex(t) == Len(t) % 2 = 0 /\ \A i \in 1..Len(t) : HexVal(t[i]) >= 0
ParseHex(t) ==
  IF IsHex(t)
  THEN Yes(TLCEval([i \in 1..(Len(t) \div 2) |-> 16 * HexVal(t[2 * i - 1]) + HexVal(t[2 * i])]))
  ELSE No

(* ------------------------------ base58check ----------------------------- *)
B58Alphabet ==
  << 49, 50, 51, 52, 53, 54, 55, 56, 57,                                    \* 1..9
     65, 66, 67, 68, 69, 70, 71, 72, 74, 75, 76, 77, 78,                    \* A..H J..N
     80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90,                            \* P..Z
     97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107,                    \* a..k
     109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122 >> \* m..z
B58Index == [c \in RangeOf(B58Alphabet) |-> CHOOSE i \in 1..58 : B58Alphabet[i] = c]

RECURSIVE LeadingAt_(_, _, _)
LeadingAt_(q, x, i) == IF i <= Len(q) /\ q[i] = x THEN LeadingAt_(q, x, i + 1) ELSE i - 1
\* How many times x stands at the beginning of q
Leading(q, x) == LeadingAt_(q, x, 1)

Times(x, n) == TLCEval([i \in 1..n |-> x])

B58Encode(b) ==
  LET ds == BNDigits(BNNorm(b), 58)
  IN  Times(49, Leading(b, 0)) \o TLCEval([i \in 1..Len(ds) |-> B58Alphabet[ds[i] + 1]])
B58Decode(t) ==
  IF \A i \in 1..Len(t) : t[i] \in DOMAIN B58Index
  THEN Yes(Times(0, Leading(t, 49)) \o BNOfDigits(TLCEval([i \in 1..Len(t) |-> B58Index[t[i]] - 1]), 58))
  ELSE No

Checksum(b) == SubSeq(Hash256(b), 1, 4)
B58CheckEncode(b) == B58Encode(b \o Checksum(b))
B58CheckDecode(t) ==
  LET d == B58Decode(t)
  IN  IF ~d.ok \/ Len(d.v) < 4 THEN No
      ELSE LET b == SubSeq(d.v, 1, Len(d.v) - 4)
           IN  IF SubSeq(d.v, Len(d.v) - 3, Len(d.v)) = Checksum(b) THEN Yes(b) ELSE No

(* -------------------------- integers on the wire ------------------------ *)
\* n bytes, most / least significant first; for numbers that fit
FixedBE(a, n) == BNFixed(a, n)
FixedLE(a, n) == Rev(BNFixed(a, n))
Fits(a, n)    == Len(a) <= n
\* Shortest form; zero takes one byte
MinimalBE(a) == IF a = << >> THEN << 0 >> ELSE a
NatBE(b) == BNNorm(b)
NatLE(b) == BNNorm(Rev(b))

VarInt(a) ==
  CASE BNLt(a, << 253 >>)        -> FixedLE(a, 1)
    [] Len(a) <= 2 /\ ~BNLt(a, << 253 >>) -> << 253 >> \o FixedLE(a, 2)
    [] Len(a) \in {3, 4}         -> << 254 >> \o FixedLE(a, 4)
    [] OTHER                     -> << 255 >> \o FixedLE(a, 8)
VarIntFits(a) == Len(a) <= 8
VarIntOf(n) == VarInt(BNOf(n))

\* Reading one at the beginning of b: value, number of bytes used
VarIntWidth(marker) == CASE marker = 253 -> 2 [] marker = 254 -> 4 [] marker = 255 -> 8 [] OTHER -> 0
VarIntAvailable(b) == Len(b) >= 1 /\ Len(b) >= 1 + VarIntWidth(b[1])
VarIntValue(b) == IF b[1] < 253 THEN BNOf(b[1]) ELSE NatLE(SubSeq(b, 2, 1 + VarIntWidth(b[1])))
VarIntRest(b)  == SubSeq(b, 2 + VarIntWidth(b[1]), Len(b))

(* ---------------------------- signed integers --------------------------- *)
\* [neg |-> 0 or 1, v |-> magnitude]; zero has neg = 0
SInt(neg, v) == [neg |-> IF v = << >> THEN 0 ELSE neg, v |-> v]
SOf(n) == IF n < 0 THEN SInt(1, BNOf(0 - n)) ELSE SInt(0, BNOf(n))
SNeg(a) == SInt(1 - a.neg, a.v)
SAdd(a, b) == IF a.neg = b.neg THEN SInt(a.neg, BNAdd(a.v, b.v))
              ELSE IF BNLt(a.v, b.v) THEN SInt(b.neg, BNSub(b.v, a.v))
              ELSE SInt(a.neg, BNSub(a.v, b.v))
SSub(a, b) == SAdd(a, SNeg(b))
SCmp(a, b) == IF a.neg # b.neg THEN (IF a.neg = 1 THEN -1 ELSE 1)
              ELSE IF a.neg = 1 THEN BNCmp(b.v, a.v) ELSE BNCmp(a.v, b.v)
SIsZero(a) == a.v = << >>

(* ----------------------------- script numbers --------------------------- *)
ScriptNum(a) ==
  IF a.v = << >> THEN << >>
  ELSE LET le == Rev(a.v)
           sign == IF a.neg = 1 THEN 128 ELSE 0
       IN  IF Last(le) >= 128 THEN Append(le, sign) ELSE Append(Front(le), Last(le) + sign)
ScriptNumValue(b) ==
  IF b = << >> THEN SInt(0, << >>)
  ELSE IF Last(b) >= 128 THEN SInt(1, NatLE(Append(Front(b), Last(b) - 128)))
  ELSE SInt(0, NatLE(b))
\* The shortest encodings, by definition
IsMinimalNum(b) == ScriptNum(ScriptNumValue(b)) = b
=============================================================================
