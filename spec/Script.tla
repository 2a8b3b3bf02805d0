------------------------------- MODULE Script -------------------------------
(***************************************************************************)
(* Scripts: bytes, instructions, text and the standard templates.          *)
(* An instruction is [op |-> 0..255, push |-> BOOLEAN, data |-> bytes];    *)
(* data is << >> when it is not a push of data.                            *)
(***************************************************************************)
EXTENDS Keys, OpNames

PUSHDATA1 == 76  PUSHDATA2 == 77  PUSHDATA4 == 78
IsConstPush(op) == op \in 1..75
IsVarPush(op)   == op \in 76..78
IsPushOp(op)    == op \in 1..78
LenWidth(op)    == CASE op = 76 -> 1 [] op = 77 -> 2 [] op = 78 -> 4 [] OTHER -> 0

Ins(op, push, data) == [op |-> op, push |-> push, data |-> data]
Op(op)         == Ins(op, FALSE, << >>)
Push(op, data) == Ins(op, TRUE, data)

\* The shortest push of data (not empty, up to 2^32 - 1 bytes; TLC sizes are below that)
ShortestPushOp(n) == IF n <= 75 THEN n ELSE IF n <= 255 THEN 76 ELSE IF n <= 65535 THEN 77 ELSE 78
PushOf(data) == Push(ShortestPushOp(Len(data)), data)

ValidIns(ins) ==
  /\ ins.op \in 0..255
  /\ ins.push = IsPushOp(ins.op)
  /\ (IsConstPush(ins.op) => Len(ins.data) = ins.op)
  /\ (ins.op = 76 => Len(ins.data) <= 255)
  /\ (ins.op = 77 => Len(ins.data) <= 65535)
  /\ (~ins.push => ins.data = << >>)

InsBytes(ins) ==
  IF ~ins.push THEN << ins.op >>
  ELSE << ins.op >> \o (IF IsVarPush(ins.op) THEN FixedLE(BNOf(Len(ins.data)), LenWidth(ins.op)) ELSE << >>) \o ins.data

\* Concatenation, halving to keep it cheap
RECURSIVE CatRange_(_, _, _)
CatRange_(f, lo, hi) ==
  IF lo > hi THEN << >>
  ELSE IF lo = hi THEN InsBytes(f[lo])
  ELSE LET m == (lo + hi) \div 2 IN CatRange_(f, lo, m) \o CatRange_(f, m + 1, hi)
ScriptBytes(is) == CatRange_(is, 1, Len(is))

RECURSIVE ParseAt_(_, _, _)
ParseAt_(b, i, acc) ==
  IF i > Len(b) THEN Yes(acc)
  ELSE LET op == b[i]
           w  == LenWidth(op)
           n  == IF IsConstPush(op) THEN BNOf(op)
                 ELSE IF i + w > Len(b) THEN << 255, 255, 255, 255, 255 >>
                 ELSE NatLE(SubSeq(b, i + 1, i + w))
       IN  IF ~IsPushOp(op) THEN ParseAt_(b, i + 1, TLCEval(Append(acc, Op(op))))
           ELSE IF BNLt(BNOf(Len(b)), BNAdd(BNOf(i + w), n)) THEN No
           ELSE LET k == BNInt(n) IN
                ParseAt_(b, i + w + k + 1, TLCEval(Append(acc, Push(op, SubSeq(b, i + w + 1, i + w + k)))))
ParseScript(b) == ParseAt_(b, 1, << >>)

IsPushOnly(is) == \A j \in 1..Len(is) : is[j].op <= 96

(* ---------------------------------- text -------------------------------- *)
Space == 32
T_0x == << 48, 120 >>
NamesByNumber == [n \in 0..255 |-> { r[1] : r \in {x \in OpTable : x[2] = n} }]
NamesOf(n) == NamesByNumber[n]
OpNames_ == { x[1] : x \in OpTable }
NumberByName == [t \in OpNames_ |-> (CHOOSE x \in OpTable : x[1] = t)[2]]
NamedOps == { r[2] : r \in OpTable }
OpName(n) == CHOOSE t \in NamesOf(n) : t \notin OpAliases
NumberNamed(t) ==
  IF Len(t) \in 4..30 /\ t[1] = 79 /\ t \in OpNames_ THEN Yes(NumberByName[t]) ELSE No

RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN << 48 + n >> ELSE Append(Decimal(n \div 10), 48 + (n % 10))
\* A decimal without leading zeros, as a number below 2^31
IsDigits(t) == t # << >> /\ \A i \in 1..Len(t) : t[i] \in 48..57
IsCanonicalDecimal(t) == IsDigits(t) /\ (Len(t) = 1 \/ t[1] # 48)
DecimalValue(t) == BNOfDigits([i \in 1..Len(t) |-> t[i] - 48], 10)

InsText(ins) ==
  IF ~ins.push THEN OpName(ins.op)
  ELSE (IF IsVarPush(ins.op) THEN Append(OpName(ins.op), Space) ELSE << >>)
       \o Decimal(Len(ins.data)) \o << Space >> \o T_0x \o HexText(ins.data)
RECURSIVE ScriptText(_)
ScriptText(is) ==
  IF is = << >> THEN << >>
  ELSE IF Len(is) = 1 THEN InsText(is[1])
  ELSE ScriptText(Front(is)) \o << Space >> \o InsText(Last(is))
HasText(is) == \A j \in 1..Len(is) : is[j].push \/ is[j].op \in NamedOps

\* The tokens between spaces: before the first space, between two, after the last
Tokens(t) ==
  IF t = << >> THEN << >>
  ELSE LET cuts == << 0 >> \o SelectSeq([i \in 1..Len(t) |-> i], LAMBDA i : t[i] = Space) \o << Len(t) + 1 >>
       IN  TLCEval([j \in 1..(Len(cuts) - 1) |-> SubSeq(t, cuts[j] + 1, cuts[j + 1] - 1)])

\* 0x and an even number of hex digits
HexArg(t) == IF Len(t) >= 2 /\ SubSeq(t, 1, 2) = T_0x THEN ParseHex(SubSeq(t, 3, Len(t))) ELSE No

RECURSIVE ParseTokens_(_, _, _)
ParseTokens_(ts, i, acc) ==
  IF i > Len(ts) THEN Yes(acc)
  ELSE
    LET n == NumberNamed(ts[i]) IN
    IF n.ok /\ ~IsPushOp(n.v) THEN ParseTokens_(ts, i + 1, TLCEval(Append(acc, Op(n.v))))
    ELSE IF n.ok
    THEN \* PUSHDATA: length and data
         IF i + 2 > Len(ts) \/ ~IsDigits(ts[i + 1]) THEN No
         ELSE LET d == HexArg(ts[i + 2]) IN
              IF ~d.ok THEN No
              ELSE IF BNOf(Len(d.v)) # DecimalValue(ts[i + 1]) \/ ~ValidIns(Push(n.v, d.v)) THEN No
              ELSE ParseTokens_(ts, i + 3, TLCEval(Append(acc, Push(n.v, d.v))))
    ELSE \* direct push
         IF ~IsDigits(ts[i]) \/ i + 1 > Len(ts) THEN No
         ELSE LET d == HexArg(ts[i + 1]) IN
              IF ~d.ok THEN No
              ELSE IF Len(d.v) \notin 1..75 \/ BNOf(Len(d.v)) # DecimalValue(ts[i]) THEN No
              ELSE ParseTokens_(ts, i + 2, TLCEval(Append(acc, Push(Len(d.v), d.v))))
ParseText(t) == LET ts == TLCEval(Tokens(t)) IN ParseTokens_(ts, 1, << >>)
\* Left open: tokens other than names and arguments separated by single spaces, numbers with
\* leading zeros
TextIsOpen(t) ==
  \/ \E i \in 1..Len(t) : t[i] \in {9, 10, 11, 12, 13, 28, 29, 30, 31, 133, 160, 12288} \/ t[i] \in 8192..8202
  \/ LET ts == TLCEval(Tokens(t)) IN
     \E j \in 1..Len(ts) : ts[j] = << >> \/ (IsDigits(ts[j]) /\ ~IsCanonicalDecimal(ts[j]))

(* -------------------------------- templates ----------------------------- *)
OP_0 == 0  OP_1NEGATE == 79  OP_1 == 81  OP_16 == 96
OP_RETURN == 106  OP_DUP == 118  OP_EQUAL == 135  OP_EQUALVERIFY == 136
OP_HASH160 == 169  OP_CHECKSIG == 172  OP_CHECKMULTISIG == 174
NumberOp(n) == IF n = 0 THEN OP_0 ELSE 80 + n
IsNumberOp(ins) == ~ins.push /\ (ins.op = 0 \/ ins.op \in 81..96)

P2pkhOut(h)      == << Op(OP_DUP), Op(OP_HASH160), PushOf(h), Op(OP_EQUALVERIFY), Op(OP_CHECKSIG) >>
P2pkhIn(sig, pk) == << PushOf(sig), PushOf(pk) >>
P2shOut(h)       == << Op(OP_HASH160), PushOf(h), Op(OP_EQUAL) >>
P2shIn(sigs, sc) == << Op(OP_0) >> \o [i \in 1..Len(sigs) |-> PushOf(sigs[i])] \o << PushOf(sc) >>
DataOut(d)       == << Op(OP_RETURN), PushOf(d) >>
Multisig(pks, m) == << Op(NumberOp(m)) >> \o [i \in 1..Len(pks) |-> PushOf(pks[i])]
                    \o << Op(NumberOp(Len(pks))), Op(OP_CHECKMULTISIG) >>

\* The templates whose shape a script has
Shapes(is) ==
  LET n == Len(is)
      isop(i, op) == ~is[i].push /\ is[i].op = op
  IN
    (IF n = 2 /\ is[1].push /\ is[2].push THEN {"PayToPubkeyIn"} ELSE {})
    \cup (IF n = 5 /\ isop(1, OP_DUP) /\ isop(2, OP_HASH160) /\ is[3].push /\ isop(4, OP_EQUALVERIFY) /\ isop(5, OP_CHECKSIG)
          THEN {"PayToPubkeyOut"} ELSE {})
    \cup (IF n > 2 /\ isop(1, OP_0) /\ \A i \in 2..n : is[i].push THEN {"PayToScriptIn"} ELSE {})
    \cup (IF n = 3 /\ isop(1, OP_HASH160) /\ is[2].push /\ isop(3, OP_EQUAL) THEN {"PayToScriptOut"} ELSE {})
    \cup (IF n = 2 /\ isop(1, OP_RETURN) /\ is[2].push THEN {"OpReturnOut"} ELSE {})
    \cup (IF n >= 4 /\ IsNumberOp(is[1]) /\ IsNumberOp(is[n - 1]) /\ isop(n, OP_CHECKMULTISIG) /\ \A i \in 2..(n - 2) : is[i].push
          THEN {"RedeemMultisig"} ELSE {})
Shape(is) == IF Shapes(is) = {} THEN "Script" ELSE CHOOSE x \in Shapes(is) : TRUE
InputClass(is) == CASE Shape(is) = "PayToPubkeyIn" -> "AddressInput"
                    [] Shape(is) = "PayToScriptIn" -> "ScriptInput"
                    [] OTHER -> "Input"
OutputClass(is) == CASE Shape(is) = "PayToPubkeyOut" -> "AddressOutput"
                     [] Shape(is) = "PayToScriptOut" -> "ScriptOutput"
                     [] Shape(is) = "OpReturnOut" -> "DataOutput"
                     [] OTHER -> "Output"
=============================================================================
