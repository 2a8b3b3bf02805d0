------------------------------ MODULE S_Script ------------------------------
(***************************************************************************)
(* What the code may do: scripts (C09, C10, C11).                          *)
(***************************************************************************)
EXTENDS Script, Obs

ObsIns(ins) == [op |-> ins.op, data |-> IF ins.push THEN OBytes(ins.data) ELSE ONone]
ObsScript(is) == [k |-> "script",
                  ins |-> [j \in 1..Len(is) |-> ObsIns(is[j])],
                  bytes |-> OBytes(ScriptBytes(is)), hex |-> OText(HexText(ScriptBytes(is)))]
Library(r) == ErrIs(r, "BitforgeError")

(* C09 *)
FromBytes(ev) ==
  LET p == ParseScript(ev.a.b)
  IN  IF p.ok THEN Clause("C09:Script.from_bytes and back", ev.r = ObsScript(p.v))
      ELSE Clause("C09:a script that ends inside a push is refused", Library(ev.r))
\* Instructions as given: op, data and whether data was given at all
Given(x) == Ins(x.op, x.has, x.data)
NewIns(ev) ==
  IF ValidIns(Given(ev.a)) THEN Clause("C09:Instruction", ev.r = OBytes(InsBytes(Given(ev.a))))
  ELSE Clause("C09:data that does not fit the opcode is refused", Refused(ev.r))
\* A script built from valid instructions, its bytes, and what they parse back to
Build(ev) ==
  LET is == [j \in 1..Len(ev.a.ins) |-> Given(ev.a.ins[j])]
  IN  Clause("C09:bytes of a script", ev.r = ObsScript(is))
      \cup Clause("C09:bytes of a script parse back to it", ev.back = ObsScript(is) /\ ev.same = OBool(TRUE))
PushFor(ev) ==
  IF ev.a.b = << >> THEN {}
  ELSE Clause("C09:the shortest push", ev.r = OBytes(InsBytes(PushOf(ev.a.b))))
\* Script.compile: items are opcodes, raw data and explicit instructions
ItemIns(x) == CASE x.kind = "op" -> Op(x.op)
                [] x.kind = "data" -> PushOf(x.data)
                [] OTHER -> Ins(x.op, TRUE, x.data)
Compile(ev) ==
  LET is == [j \in 1..Len(ev.a.items) |-> ItemIns(ev.a.items[j])]
      ok == \A j \in 1..Len(is) : ValidIns(is[j])
  IN  IF ok THEN Clause("C09:Script.compile", ev.r = ObsScript(is)) ELSE Clause("C09:Script.compile refuses", Refused(ev.r))

(* C10 *)
TextOf(ev) ==
  LET is == [j \in 1..Len(ev.a.ins) |-> Given(ev.a.ins[j])]
  IN  Clause("C10:text of a script", ev.r = OText(ScriptText(is)))
      \cup Clause("C10:text of a script reads back to it", ev.back = ObsScript(is) /\ ev.same = OBool(TRUE))
FromText(ev) ==
  LET p == ParseText(ev.a.t) IN
  IF TextIsOpen(ev.a.t) THEN {}
  ELSE IF p.ok THEN Clause("C10:Script.from_string", ev.r = ObsScript(p.v))
  ELSE Clause("C10:malformed script text is refused", Library(ev.r))
OpFromName(ev) ==
  LET n == NumberNamed(ev.a.t)
  IN  Clause("C10:Opcode.from_name", IF n.ok THEN ev.r = ONat(BNOf(n.v)) ELSE Library(ev.r))
OpNameOf(ev) ==
  IF ev.a.n \in NamedOps /\ ~IsConstPush(ev.a.n)
  THEN Clause("C10:Opcode.name", ev.r.k = "text" /\ ev.r.v \in NamesOf(ev.a.n)) ELSE {}

(* C11 *)
Acc(x) == [k |-> "list", items |-> x]
P2pkhOutNew(ev) ==
  IF ev.a.type = T_pubkeyhash
  THEN Clause("C11:pay to public key hash",
         /\ ev.r = OBytes(ScriptBytes(P2pkhOut(ev.a.hash))) /\ ev.acc = OBytes(ev.a.hash)
         /\ ev.out = OBytes(ScriptBytes(P2pkhOut(ev.a.hash))) /\ ev.inp = OBytes(ScriptBytes(P2pkhOut(ev.a.hash))))
  ELSE Clause("C11:a script address is refused where a key address is meant",
              Refused(ev.r) /\ Refused(ev.out) /\ Refused(ev.inp))
P2pkhInNew(ev) ==
  Clause("C11:pay to public key hash, input",
    /\ ev.r = OBytes(ScriptBytes(P2pkhIn(ev.a.sig, ev.a.pub)))
    /\ ev.acc = Acc(<< OBytes(ev.a.sig), OBytes(ev.a.pub) >>))
P2shOutNew(ev) ==
  LET want == OBytes(ScriptBytes(P2shOut(Hash160(ev.a.script))))
  IN  Clause("C11:pay to script hash",
        ev.r = want /\ ev.acc = OBytes(Hash160(ev.a.script)) /\ ev.out = want)
P2shInNew(ev) ==
  Clause("C11:pay to script hash, input",
    /\ ev.r = OBytes(ScriptBytes(P2shIn(ev.a.sigs, ev.a.script)))
    /\ ev.acc = Acc(<< OBytes(ev.a.script), Acc([j \in 1..Len(ev.a.sigs) |-> OBytes(ev.a.sigs[j])]) >>))
MultisigNew(ev) ==
  LET redeem == ScriptBytes(Multisig(ev.a.pubs, ev.a.m))
  IN  Clause("C11:multisig redeem script",
        /\ ev.r = OBytes(redeem)
        /\ ev.acc = Acc(<< ONat(BNOf(ev.a.m)), Acc([j \in 1..Len(ev.a.pubs) |-> OBytes(ev.a.pubs[j])]) >>)
        /\ ev.inp = OBytes(redeem))
      \cup Clause("C11:a multisig output pays to the hash of its redeem script",
        ev.out = OBytes(ScriptBytes(P2shOut(Hash160(redeem)))))
DataNew(ev) ==
  IF ev.a.b = << >> THEN {}
  ELSE Clause("C11:data script", ev.r = OBytes(ScriptBytes(DataOut(ev.a.b))) /\ ev.acc = OBytes(ev.a.b))
       \cup Clause("C11:data output",
              IF Len(ev.a.b) <= 80 THEN ev.out = OBytes(ScriptBytes(DataOut(ev.a.b))) /\ ev.amount = ONat(<< >>)
              ELSE ErrIs(ev.out, "DataOutput.TooMuchData"))
Classify(ev) ==
  LET p == ParseScript(ev.a.b) IN
  IF ~p.ok THEN {}
  ELSE Clause("C11:classification of a script", ev.r = Shape(p.v) /\ ev.r2 = Shape(p.v) /\ ev.r3 = Shape(p.v))
       \cup Clause("C11:class of an input", ev.inp = InputClass(p.v))
       \cup Clause("C11:class of an output", ev.out = OutputClass(p.v) /\ ev.out2 = OutputClass(p.v))

Script_Failing(st, ev) ==
  CASE ev.op = "from_bytes" -> FromBytes(ev)
    [] ev.op = "new_ins"    -> NewIns(ev)
    [] ev.op = "build"      -> Build(ev)
    [] ev.op = "push_for"   -> PushFor(ev)
    [] ev.op = "compile"    -> Compile(ev)
    [] ev.op = "text_of"    -> TextOf(ev)
    [] ev.op = "from_text"  -> FromText(ev)
    [] ev.op = "op_from_name" -> OpFromName(ev)
    [] ev.op = "op_name"    -> OpNameOf(ev)
    [] ev.op = "p2pkh_out"  -> P2pkhOutNew(ev)
    [] ev.op = "p2pkh_in"   -> P2pkhInNew(ev)
    [] ev.op = "p2sh_out"   -> P2shOutNew(ev)
    [] ev.op = "p2sh_in"    -> P2shInNew(ev)
    [] ev.op = "multisig"   -> MultisigNew(ev)
    [] ev.op = "data"       -> DataNew(ev)
    [] ev.op = "classify"   -> Classify(ev)
=============================================================================
