-------------------------------- MODULE S_Op --------------------------------
(***************************************************************************)
(* What the code may do: opcodes and single instructions (C26).            *)
(***************************************************************************)
EXTENDS Script, Obs

IsSmallInt(n) == n = 0 \/ n \in 81..96
NumberOf(n) == IF n = 0 THEN 0 ELSE n - 80
OpFor(k) == IF k = 0 THEN 0 ELSE k + 80
\* Longest data of an opcode
MaxLen_(n) == CASE IsConstPush(n) -> BNOf(n) [] n = 76 -> << 255 >> [] n = 77 -> << 255, 255 >>
                [] n = 78 -> << 255, 255, 255, 255 >> [] OTHER -> << >>
\* The opcode that pushes a length: [ok, v]; the length is a signed number
ConstFor(n) == IF n.neg = 0 /\ n.v # << >> /\ BNLe(n.v, << 75 >>) THEN Yes(BNInt(n.v)) ELSE No
VarFor(n) == IF n.neg = 1 \/ n.v = << >> THEN No
             ELSE IF Len(n.v) = 1 THEN Yes(76) ELSE IF Len(n.v) = 2 THEN Yes(77)
             ELSE IF Len(n.v) <= 4 THEN Yes(78) ELSE No
PushForLen(n) == IF n.neg = 0 /\ BNLe(n.v, << 75 >>) THEN ConstFor(n) ELSE VarFor(n)
\* There is no shorter instruction with the same effect (the rule of CheckMinimalPush)
MinimalPush(ins) ==
  IF ~ins.push THEN TRUE
  ELSE LET d == ins.data  n == Len(d) IN
       IF n = 0 THEN FALSE
       ELSE IF n = 1 /\ (d[1] \in 1..16 \/ d[1] = 129) THEN FALSE
       ELSE IF n <= 75 THEN ins.op = n
       ELSE IF n <= 255 THEN ins.op = 76
       ELSE IF n <= 65535 THEN ins.op = 77
       ELSE TRUE

Row(ev) ==
  LET n == ev.a.n  r == ev.r
  IN  Clause("C26:the number and byte of an opcode", ev.num = ONat(BNOf(n)) /\ ev.byte = OBytes(<< n >>))
      \cup Clause("C26:the name of an opcode",
             IF n \in NamedOps THEN ev.name = OText(OpName(n))
             ELSE ev.name.k = "text" /\ ~(ev.name.v \in OpNames_))
      \cup Clause("C26:an opcode of its name is the same opcode", (n \in NamedOps) => ev.again = OBool(TRUE))
      \cup Clause("C26:which opcodes are numbers", ev.isnum = OBool(IsSmallInt(n)))
      \cup Clause("C26:the number an opcode pushes",
             IF IsSmallInt(n) THEN ev.value = ONat(BNOf(NumberOf(n))) ELSE Refused(ev.value))
      \cup Clause("C26:which opcodes push data",
             /\ ev.push = OBool(IsPushOp(n)) /\ ev.const = OBool(IsConstPush(n)) /\ ev.var = OBool(IsVarPush(n)))
      \cup Clause("C26:the longest data of an opcode", ev.max = ONat(MaxLen_(n)))
      \cup Clause("C26:the length bytes of an opcode",
             IF IsVarPush(n) THEN ev.nbytes = ONat(BNOf(LenWidth(n))) ELSE Refused(ev.nbytes))
      \cup Clause("C26:the order of opcodes is that of their numbers",
             \A m \in 0..255 :
               ev.cmp[m + 1] = << IF n < m THEN 1 ELSE 0, IF n <= m THEN 1 ELSE 0, IF n = m THEN 1 ELSE 0,
                                  IF n # m THEN 1 ELSE 0, IF n > m THEN 1 ELSE 0, IF n >= m THEN 1 ELSE 0 >>)
      \cup Clause("C26:equal opcodes hash equally", ev.hash = OBool(TRUE))
      \cup Clause("C26:an opcode equals no number and no text", ev.alien = OBool(FALSE))
OpNew(ev) ==
  Clause("C26:an opcode has a number from 0 to 255",
    IF ev.a.n.neg = 0 /\ Len(ev.a.n.v) <= 1 THEN ev.r = ONat(ev.a.n.v) ELSE ErrIs(ev.r, "Opcode.UnknownOpcodeNumber"))
ForNumber(ev) ==
  Clause("C26:the opcode of a small number",
    IF ev.a.n.neg = 0 /\ BNLe(ev.a.n.v, << 16 >>) THEN ev.r = ONat(BNOf(OpFor(BNInt(ev.a.n.v)))) ELSE Refused(ev.r))
NameKnown(ev) ==
  LET n == NumberNamed(ev.a.t)
  IN  Clause("C26:the opcode of a name", IF n.ok THEN ev.r = ONat(BNOf(n.v)) ELSE ErrIs(ev.r, "Opcode.UnknownOpcodeName"))
PushLen(ev) ==
  LET c == ConstFor(ev.a.n)  v == VarFor(ev.a.n)  p == PushForLen(ev.a.n)
  IN  Clause("C26:direct push of a length",
             IF c.ok THEN ev.const = ONat(BNOf(c.v)) ELSE ErrIs(ev.const, "Opcode.InvalidConstPushLength"))
      \cup Clause("C26:PUSHDATA of a length",
             IF v.ok THEN ev.var = ONat(BNOf(v.v)) ELSE ErrIs(ev.var, "Opcode.InvalidPushLength"))
      \cup Clause("C26:the smallest push of a length", IF p.ok THEN ev.r = ONat(BNOf(p.v)) ELSE Refused(ev.r))
\* An instruction made of an opcode and data or none
Made(ev) ==
  LET ins == Ins(ev.a.op, ev.a.has, ev.a.data)
      valid == ValidIns(ins)
  IN  IF IsPushOp(ev.a.op) /\ ~ev.a.has
      THEN Clause("C26:an instruction that pushes needs data", Refused(ev.r))
      ELSE IF ~valid
      THEN Clause("C26:an instruction that cannot be is refused",
             ErrIs(ev.r, IF IsPushOp(ev.a.op) THEN "Instruction.InvalidDataLength" ELSE "Instruction.UnexpectedData"))
      ELSE Clause("C26:the parts of an instruction",
             ev.r = OList(<< ONat(BNOf(ev.a.op)), IF ev.a.has THEN OBytes(ev.a.data) ELSE ONone >>))
           \cup Clause("C26:the bytes of an instruction",
                  ev.bytes = OBytes(InsBytes(ins)) /\ ev.hex = OText(HexText(InsBytes(ins))))
           \cup (IF HasText(<< ins >>) THEN Clause("C26:the text of an instruction", ev.text = OText(InsText(ins))) ELSE {})
           \cup Clause("C26:whether an instruction pushes data", ev.push = OBool(ins.push))
           \cup Clause("C26:whether a push is minimal", ev.min = OBool(MinimalPush(ins)))
           \cup Clause("C26:instructions with the same parts are equal", ev.same = OBool(TRUE))
Differs(ev) ==
  Clause("C26:instructions with other parts are different",
    ev.r = OList(<< OBool(FALSE), OBool(TRUE) >>))
NotAnOpcode(ev) == Clause("C26:an instruction is made of an opcode", ErrIs(ev.r, "Instruction.TypeError"))
PushData(ev) ==
  IF ev.a.data = << >> THEN {}
  ELSE Clause("C26:the smallest push of data",
         ev.r = OList(<< ONat(BNOf(ShortestPushOp(Len(ev.a.data)))), OBytes(ev.a.data) >>))

Op_Failing(st, ev) ==
  CASE ev.op = "row"      -> Row(ev)
    [] ev.op = "new"      -> OpNew(ev)
    [] ev.op = "number"   -> ForNumber(ev)
    [] ev.op = "named"    -> NameKnown(ev)
    [] ev.op = "lens"     -> PushLen(ev)
    [] ev.op = "ins"      -> Made(ev)
    [] ev.op = "differs"  -> Differs(ev)
    [] ev.op = "notop"    -> NotAnOpcode(ev)
    [] ev.op = "data"     -> PushData(ev)
=============================================================================
