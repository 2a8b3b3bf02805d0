------------------------------- MODULE Interp -------------------------------
(***************************************************************************)
(* The script machine, after Bitcoin's consensus rules (bitcoind b5d1b109, *)
(* the version the interpreter follows).                                   *)
(*                                                                         *)
(* The state of a run is                                                   *)
(*   [err   |-> "" or the reason of the failure,                           *)
(*    stack, alt |-> sequences of byte strings (the top comes last),       *)
(*    cond  |-> for each open conditional, whether its branch is executed, *)
(*    ops   |-> operations counted so far,                                 *)
(*    start |-> position after the last executed OP_CODESEPARATOR,         *)
(*    sig   |-> whether a signature has been looked at]                    *)
(* and Step executes one instruction.  The context of a run is             *)
(*   [flags, lock, seq, tx, nin |-> transaction and input (from 1),        *)
(*    is |-> the instructions, dev |-> see CastToBool]                     *)
(***************************************************************************)
EXTENDS Tx

F_P2SH == 1  F_STRICTENC == 2  F_DERSIG == 4  F_LOW_S == 8  F_NULLDUMMY == 16
F_SIGPUSHONLY == 32  F_MINIMALDATA == 64  F_NOPS == 128  F_CLTV == 512
Has(flags, f) == (flags \div f) % 2 = 1

MaxElement == 520  MaxOps == 201  MaxStack == 1000  MaxScript == 10000
Disabled == {126, 127, 128, 129, 131, 132, 133, 134, 141, 142, 149, 150, 151, 152, 153}

\* A stack element as a truth value: false is zero, also negative zero.
\* dev: what the implementation does instead (known finding): a value that begins with a zero byte is false.
CastToBool(b, dev) ==
  IF dev THEN b # << >> /\ b[1] # 0 /\ b # << 128 >>
  ELSE \E i \in 1..Len(b) : b[i] # 0 /\ ~(i = Len(b) /\ b[i] = 128)
BoolBytes(p) == IF p THEN << 1 >> ELSE << >>

\* Is this the shortest instruction that pushes the value?
IsMinimalPush(ins) ==
  LET n == Len(ins.data) IN
  CASE n = 0 -> ins.op = 0
    [] n = 1 /\ ins.data[1] \in 1..16 -> FALSE
    [] n = 1 /\ ins.data[1] = 129     -> FALSE
    [] OTHER -> ins.op = ShortestPushOp(n)

\* A script number of at most max bytes
NumArg(b, flags, max) ==
  IF Len(b) > max \/ (Has(flags, F_MINIMALDATA) /\ ~IsMinimalNum(b)) THEN No ELSE Yes(ScriptNumValue(b))

StartVm(stack) == [err |-> "", stack |-> stack, alt |-> << >>, cond |-> << >>, ops |-> 0, start |-> 1, sig |-> FALSE]
Fail(vm, why) == [vm EXCEPT !.err = why]
InvalidStack == "SCRIPT_ERR_INVALID_STACK_OPERATION"
NumError == "SCRIPT_ERR_UNKNOWN_ERROR"
Executing(vm) == \A j \in 1..Len(vm.cond) : vm.cond[j]

\* The n topmost elements as x[1], ..., x[n] (x[n] is the top), and what is below
Top(st, n)   == SubSeq(st, Len(st) - n + 1, Len(st))
Below(st, n) == SubSeq(st, 1, Len(st) - n)
\* Replace the n topmost elements
Put(vm, n, xs) == [vm EXCEPT !.stack = Below(@, n) \o xs]
PushNum(vm, n, a) == Put(vm, n, << ScriptNum(a) >>)

Unary(op, a) ==
  CASE op = 139 -> SAdd(a, SOf(1))
    [] op = 140 -> SSub(a, SOf(1))
    [] op = 143 -> SNeg(a)
    [] op = 144 -> SInt(0, a.v)
    [] op = 145 -> SOf(IF SIsZero(a) THEN 1 ELSE 0)
    [] op = 146 -> SOf(IF SIsZero(a) THEN 0 ELSE 1)
Truth(p) == SOf(IF p THEN 1 ELSE 0)
Binary(op, a, b) ==
  CASE op = 147 -> SAdd(a, b)
    [] op = 148 -> SSub(a, b)
    [] op = 154 -> Truth(~SIsZero(a) /\ ~SIsZero(b))
    [] op = 155 -> Truth(~SIsZero(a) \/ ~SIsZero(b))
    [] op \in {156, 157} -> Truth(a = b)
    [] op = 158 -> Truth(a # b)
    [] op = 159 -> Truth(SCmp(a, b) < 0)
    [] op = 160 -> Truth(SCmp(a, b) > 0)
    [] op = 161 -> Truth(SCmp(a, b) <= 0)
    [] op = 162 -> Truth(SCmp(a, b) >= 0)
    [] op = 163 -> IF SCmp(a, b) < 0 THEN a ELSE b
    [] op = 164 -> IF SCmp(a, b) > 0 THEN a ELSE b

HashOp(op, b) ==
  CASE op = 166 -> Ripemd160(b)
    [] op = 167 -> Sha1(b)
    [] op = 168 -> Sha256(b)
    [] op = 169 -> Hash160(b)
    [] op = 170 -> Hash256(b)

(* ------------------------------ lock time ------------------------------- *)
Threshold == << 29, 205, 101, 0 >>        \* 500000000
LockOk(ctx, a) ==
  /\ BNLt(a, Threshold) = BNLt(ctx.lock, Threshold)
  /\ BNLe(a, ctx.lock)
  /\ ctx.seq # Times(255, 4)
LockTime(vm, ctx) ==
  IF ~Has(ctx.flags, F_CLTV)
  THEN IF Has(ctx.flags, F_NOPS) THEN Fail(vm, "SCRIPT_ERR_DISCOURAGE_UPGRADABLE_NOPS") ELSE vm
  ELSE IF vm.stack = << >> THEN Fail(vm, InvalidStack)
  ELSE LET a == NumArg(Last(vm.stack), ctx.flags, 5) IN
       IF ~a.ok THEN Fail(vm, NumError)
       ELSE IF a.v.neg = 1 THEN Fail(vm, "SCRIPT_ERR_NEGATIVE_LOCKTIME")
       ELSE IF ~LockOk(ctx, a.v.v) THEN Fail(vm, "SCRIPT_ERR_UNSATISFIED_LOCKTIME")
       ELSE vm

(* ------------------------------ signatures ------------------------------ *)
SigEncoding(sig, flags) ==
  IF sig = << >> THEN ""
  ELSE IF (Has(flags, F_DERSIG) \/ Has(flags, F_LOW_S) \/ Has(flags, F_STRICTENC)) /\ ~StrictSig(sig) THEN "SCRIPT_ERR_SIG_DER"
  ELSE IF Has(flags, F_LOW_S) /\ ~LowS(Front(sig)) THEN "SCRIPT_ERR_SIG_HIGH_S"
  ELSE IF Has(flags, F_STRICTENC) /\ (Last(sig) % 128) \notin {1, 2, 3} THEN "SCRIPT_ERR_SIG_HASHTYPE"
  ELSE ""
PubEncoding(pub, flags) ==
  IF Has(flags, F_STRICTENC) /\ ~(Len(pub) = 65 /\ pub[1] = 4) /\ ~(Len(pub) = 33 /\ pub[1] \in {2, 3})
  THEN "SCRIPT_ERR_PUBKEYTYPE" ELSE ""
\* Any key the consensus rules take: hybrid keys too
AnyPub(pub) ==
  IF Len(pub) = 65 /\ pub[1] \in {6, 7}
  THEN LET d == SecDecode(<< 4 >> \o Tail(pub)) IN IF d.ok /\ pub[65] % 2 = pub[1] % 2 THEN d ELSE No
  ELSE SecDecode(pub)
\* The script a signature covers: from the last OP_CODESEPARATOR on, without the signatures and separators
SigPush(sig) == IF sig = << >> THEN << 0 >> ELSE InsBytes(PushOf(sig))
CodeFor(vm, ctx, sigs) ==
  ScriptBytes(SelectSeq(SubSeq(ctx.is, vm.start, Len(ctx.is)),
                        LAMBDA x : x.op # 171 /\ \A j \in 1..Len(sigs) : InsBytes(x) # SigPush(sigs[j])))
SigOk(ctx, sig, pub, code) ==
  /\ sig # << >>
  /\ LET k == AnyPub(pub)
         d == IF ParseDer(Front(sig)).ok THEN ParseDer(Front(sig)) ELSE LooseDer(Front(sig))
     IN  /\ k.ok /\ d.ok
         /\ EcdsaValid(Secp, k.v.P, NatBE(SigHash(ctx.tx, ctx.nin, code, Last(sig))), d.v.r, d.v.s)

CheckSig(vm, ctx, op) ==
  IF Len(vm.stack) < 2 THEN Fail(vm, InvalidStack)
  ELSE LET x == Top(vm.stack, 2)
           bad == IF SigEncoding(x[1], ctx.flags) # "" THEN SigEncoding(x[1], ctx.flags) ELSE PubEncoding(x[2], ctx.flags)
           vm2 == [vm EXCEPT !.sig = TRUE]
       IN  IF bad # "" THEN Fail(vm2, bad)
           ELSE LET ok == SigOk(ctx, x[1], x[2], CodeFor(vm, ctx, << x[1] >>)) IN
                IF op = 172 THEN Put(vm2, 2, << BoolBytes(ok) >>)
                ELSE IF ok THEN Put(vm2, 2, << >>) ELSE Fail(vm2, "SCRIPT_ERR_CHECKSIGVERIFY")

\* Signatures and keys from the top of the stack downwards: [err, ok]
RECURSIVE CheckKeys(_, _, _, _, _)
CheckKeys(ctx, sigs, pubs, code, x) ==
  IF sigs = << >> THEN [err |-> "", ok |-> TRUE]
  ELSE IF Len(sigs) > Len(pubs) THEN [err |-> "", ok |-> FALSE]
  ELSE LET s == Last(sigs)  p == Last(pubs)
           bad == IF SigEncoding(s, ctx.flags) # "" THEN SigEncoding(s, ctx.flags) ELSE PubEncoding(p, ctx.flags)
       IN  IF bad # "" THEN [err |-> bad, ok |-> FALSE]
           ELSE CheckKeys(ctx, IF SigOk(ctx, s, p, code) THEN Front(sigs) ELSE sigs, Front(pubs), code, x)
CheckMultisig(vm, ctx, op) ==
  LET size == Len(vm.stack) IN
  IF size < 1 THEN Fail(vm, InvalidStack)
  ELSE
  LET nk == NumArg(vm.stack[size], ctx.flags, 4) IN
  IF ~nk.ok THEN Fail(vm, NumError)
  ELSE IF SCmp(nk.v, SOf(0)) < 0 \/ SCmp(nk.v, SOf(20)) > 0 THEN Fail(vm, "SCRIPT_ERR_PUBKEY_COUNT")
  ELSE
  LET keys == BNInt(nk.v.v)
      vm1 == [vm EXCEPT !.ops = @ + keys]
  IN
  IF vm1.ops > MaxOps THEN Fail(vm1, "SCRIPT_ERR_OP_COUNT")
  ELSE IF size < keys + 2 THEN Fail(vm1, InvalidStack)
  ELSE
  LET ns == NumArg(vm.stack[size - keys - 1], ctx.flags, 4) IN
  IF ~ns.ok THEN Fail(vm1, NumError)
  ELSE IF SCmp(ns.v, SOf(0)) < 0 \/ SCmp(ns.v, nk.v) > 0 THEN Fail(vm1, "SCRIPT_ERR_SIG_COUNT")
  ELSE
  LET sigs == BNInt(ns.v.v) IN
  IF size < keys + sigs + 3 THEN Fail(vm1, InvalidStack)
  ELSE
  LET ps == SubSeq(vm.stack, size - keys, size - 1)
      ss == SubSeq(vm.stack, size - keys - sigs - 1, size - keys - 2)
      vm2 == [vm1 EXCEPT !.sig = vm.sig \/ sigs > 0]
      r == CheckKeys(ctx, ss, ps, CodeFor(vm, ctx, ss), 0)
      dummy == vm.stack[size - keys - sigs - 2]
  IN
  IF r.err # "" THEN Fail(vm2, r.err)
  ELSE IF Has(ctx.flags, F_NULLDUMMY) /\ dummy # << >> THEN Fail(vm2, "SCRIPT_ERR_SIG_NULLDUMMY")
  ELSE IF op = 174 THEN Put(vm2, keys + sigs + 3, << BoolBytes(r.ok) >>)
  ELSE IF r.ok THEN Put(vm2, keys + sigs + 3, << >>)
  ELSE Fail(vm2, "SCRIPT_ERR_CHECKMULTISIGVERIFY")

(* -------------------------------- opcodes ------------------------------- *)
\* Elements an operation needs
Needs == [ op \in {105, 107, 115, 117, 118, 130} \cup {139, 140, 143, 144, 145, 146} \cup 166..170 |-> 1 ]
         @@ [ op \in {109, 110, 119, 120, 121, 122, 124, 125, 135, 136} \cup {147, 148} \cup 154..164 |-> 2 ]
         @@ [ op \in {111, 123, 165} |-> 3 ] @@ [ op \in {112, 114} |-> 4 ] @@ [ op \in {113} |-> 6 ]
PickRoll(vm, ctx, op) ==
  LET a == NumArg(Last(vm.stack), ctx.flags, 4)
      st == Front(vm.stack)
  IN  IF ~a.ok THEN Fail(vm, NumError)
      ELSE IF a.v.neg = 1 \/ ~BNLt(a.v.v, BNOf(Len(st))) THEN Fail(vm, InvalidStack)
      ELSE LET k == Len(st) - BNInt(a.v.v)
           IN  [vm EXCEPT !.stack = Append(IF op = 121 THEN st ELSE SubSeq(st, 1, k - 1) \o SubSeq(st, k + 1, Len(st)), st[k])]

Operate(vm, ctx, op) ==
  LET n == IF op \in DOMAIN Needs THEN Needs[op] ELSE 0
      x == Top(vm.stack, n)
  IN
  CASE op = 79 \/ op \in 81..96 -> PushNum(vm, 0, SOf(op - 80))
    [] op = 97 -> vm
    [] op = 177 -> LockTime(vm, ctx)
    [] op = 176 \/ op \in 178..185 ->
         IF Has(ctx.flags, F_NOPS) THEN Fail(vm, "SCRIPT_ERR_DISCOURAGE_UPGRADABLE_NOPS") ELSE vm
    [] op = 106 -> Fail(vm, "SCRIPT_ERR_OP_RETURN")
    [] op = 108 -> IF vm.alt = << >> THEN Fail(vm, "SCRIPT_ERR_INVALID_ALTSTACK_OPERATION")
                   ELSE [vm EXCEPT !.stack = Append(@, Last(vm.alt)), !.alt = Front(@)]
    [] op = 116 -> PushNum(vm, 0, SOf(Len(vm.stack)))
    [] op = 171 -> vm                                   \* see Step
    [] op \in {172, 173} -> CheckSig(vm, ctx, op)
    [] op \in {174, 175} -> CheckMultisig(vm, ctx, op)
    [] op \notin DOMAIN Needs -> Fail(vm, "SCRIPT_ERR_BAD_OPCODE")
    [] op \in DOMAIN Needs /\ Len(vm.stack) < n -> Fail(vm, InvalidStack)
    [] OTHER ->
       CASE op = 105 -> IF CastToBool(x[1], ctx.dev) THEN Put(vm, 1, << >>) ELSE Fail(vm, "SCRIPT_ERR_VERIFY")
         [] op = 107 -> [Put(vm, 1, << >>) EXCEPT !.alt = Append(@, x[1])]
         [] op = 109 -> Put(vm, 2, << >>)
         [] op = 110 -> Put(vm, 0, << x[1], x[2] >>)
         [] op = 111 -> Put(vm, 0, << x[1], x[2], x[3] >>)
         [] op = 112 -> Put(vm, 0, << x[1], x[2] >>)
         [] op = 113 -> Put(vm, 6, << x[3], x[4], x[5], x[6], x[1], x[2] >>)
         [] op = 114 -> Put(vm, 4, << x[3], x[4], x[1], x[2] >>)
         [] op = 115 -> IF CastToBool(x[1], ctx.dev) THEN Put(vm, 0, << x[1] >>) ELSE vm
         [] op = 117 -> Put(vm, 1, << >>)
         [] op = 118 -> Put(vm, 0, << x[1] >>)
         [] op = 119 -> Put(vm, 2, << x[2] >>)
         [] op = 120 -> Put(vm, 0, << x[1] >>)
         [] op \in {121, 122} -> PickRoll(vm, ctx, op)
         [] op = 123 -> Put(vm, 3, << x[2], x[3], x[1] >>)
         [] op = 124 -> Put(vm, 2, << x[2], x[1] >>)
         [] op = 125 -> Put(vm, 2, << x[2], x[1], x[2] >>)
         [] op = 130 -> PushNum(vm, 0, SOf(Len(x[1])))
         [] op = 135 -> Put(vm, 2, << BoolBytes(x[1] = x[2]) >>)
         [] op = 136 -> IF x[1] = x[2] THEN Put(vm, 2, << >>) ELSE Fail(vm, "SCRIPT_ERR_EQUALVERIFY")
         [] op \in {139, 140, 143, 144, 145, 146} ->
              LET a == NumArg(x[1], ctx.flags, 4) IN
              IF a.ok THEN PushNum(vm, 1, Unary(op, a.v)) ELSE Fail(vm, NumError)
         [] op \in {147, 148} \cup 154..164 ->
              LET a == NumArg(x[1], ctx.flags, 4)  b == NumArg(x[2], ctx.flags, 4) IN
              IF ~a.ok \/ ~b.ok THEN Fail(vm, NumError)
              ELSE IF op # 157 THEN PushNum(vm, 2, Binary(op, a.v, b.v))
              ELSE IF a.v = b.v THEN Put(vm, 2, << >>) ELSE Fail(vm, "SCRIPT_ERR_NUMEQUALVERIFY")
         [] op = 165 ->
              LET a == NumArg(x[1], ctx.flags, 4)  b == NumArg(x[2], ctx.flags, 4)  c == NumArg(x[3], ctx.flags, 4) IN
              IF ~a.ok \/ ~b.ok \/ ~c.ok THEN Fail(vm, NumError)
              ELSE PushNum(vm, 3, Truth(SCmp(b.v, a.v) <= 0 /\ SCmp(a.v, c.v) < 0))
         [] op \in 166..170 -> Put(vm, 1, << HashOp(op, x[1]) >>)

Conditional(vm, ctx, op) ==
  CASE op \in {99, 100} ->
         IF ~Executing(vm) THEN [vm EXCEPT !.cond = Append(@, FALSE)]
         ELSE IF vm.stack = << >> THEN Fail(vm, "SCRIPT_ERR_UNBALANCED_CONDITIONAL")
         ELSE [Put(vm, 1, << >>) EXCEPT !.cond = Append(@, CastToBool(Last(vm.stack), ctx.dev) = (op = 99))]
    [] op \in {103, 104} /\ vm.cond = << >> -> Fail(vm, "SCRIPT_ERR_UNBALANCED_CONDITIONAL")
    [] op = 103 -> [vm EXCEPT !.cond[Len(vm.cond)] = ~@]
    [] op = 104 -> [vm EXCEPT !.cond = Front(@)]
    [] OTHER -> Fail(vm, "SCRIPT_ERR_BAD_OPCODE")       \* OP_VERIF, OP_VERNOTIF: also where not executed

\* One instruction; at: its position
Step(vm, ctx, ins, at) ==
  LET op == ins.op
      vm1 == IF op > 96 THEN [vm EXCEPT !.ops = @ + 1] ELSE vm
      done ==
        IF Len(ins.data) > MaxElement THEN Fail(vm, "SCRIPT_ERR_PUSH_SIZE")
        ELSE IF vm1.ops > MaxOps THEN Fail(vm1, "SCRIPT_ERR_OP_COUNT")
        ELSE IF op \in Disabled THEN Fail(vm1, "SCRIPT_ERR_DISABLED_OPCODE")
        ELSE IF op \in 99..104 THEN Conditional(vm1, ctx, op)
        ELSE IF ~Executing(vm) THEN vm1
        ELSE IF op <= 78
        THEN IF Has(ctx.flags, F_MINIMALDATA) /\ ~IsMinimalPush(ins) THEN Fail(vm1, "SCRIPT_ERR_MINIMALDATA")
             ELSE Put(vm1, 0, << ins.data >>)
        ELSE IF op = 171 THEN [vm1 EXCEPT !.start = at + 1]
        ELSE Operate(vm1, ctx, op)
  IN  IF done.err = "" /\ Len(done.stack) + Len(done.alt) > MaxStack THEN Fail(done, "SCRIPT_ERR_STACK_SIZE") ELSE done

RECURSIVE Run_(_, _, _)
Run_(vm, ctx, at) ==
  IF vm.err # "" \/ at > Len(ctx.is) THEN vm
  ELSE Run_(TLCEval(Step(vm, ctx, ctx.is[at], at)), ctx, at + 1)
\* A whole script, from a given stack
Evaluate(ctx, stack) ==
  IF Len(ScriptBytes(ctx.is)) > MaxScript THEN Fail(StartVm(stack), "SCRIPT_ERR_SCRIPT_SIZE")
  ELSE LET vm == TLCEval(Run_(StartVm(stack), ctx, 1))
       IN  IF vm.err = "" /\ vm.cond # << >> THEN Fail(vm, "SCRIPT_ERR_UNBALANCED_CONDITIONAL") ELSE vm

(* ------------------------------ verification ---------------------------- *)
IsP2shOut(is) == Len(is) = 3 /\ is = P2shOut(is[2].data) /\ Len(is[2].data) = 20
\* [ok, err, vm: the machine at the end, sig: a signature was looked at, open: the reason is left open]
Verdict(ok, err, vm, sig) == [ok |-> ok, err |-> err, vm |-> vm, sig |-> sig, open |-> FALSE]
VerifyScript(sigis, pubis, env) ==
  LET flags == env.flags
      ctx(is) == env @@ [is |-> is]
      start == StartVm(<< >>)
  IN
  IF Has(flags, F_SIGPUSHONLY) /\ ~IsPushOnly(sigis) THEN Verdict(FALSE, "SCRIPT_ERR_SIG_PUSHONLY", start, FALSE)
  ELSE
  LET a == Evaluate(ctx(sigis), << >>) IN
  IF a.err # "" THEN Verdict(FALSE, a.err, a, a.sig)
  ELSE
  LET b == Evaluate(ctx(pubis), a.stack)
      sig == a.sig \/ b.sig
  IN
  IF b.err # "" THEN Verdict(FALSE, b.err, b, sig)
  ELSE IF b.stack = << >> THEN Verdict(FALSE, "SCRIPT_ERR_EVAL_FALSE_NO_RESULT", b, sig)
  ELSE IF ~CastToBool(Last(b.stack), env.dev) THEN Verdict(FALSE, "SCRIPT_ERR_EVAL_FALSE_IN_STACK", b, sig)
  ELSE IF ~(Has(flags, F_P2SH) /\ IsP2shOut(pubis)) THEN Verdict(TRUE, "", b, sig)
  ELSE IF ~IsPushOnly(sigis) THEN Verdict(FALSE, "SCRIPT_ERR_SIG_PUSHONLY", b, sig)
  ELSE
  LET redeem == ParseScript(Last(a.stack)) IN
  IF ~redeem.ok THEN [Verdict(FALSE, "SCRIPT_ERR_BAD_OPCODE", b, sig) EXCEPT !.open = TRUE]
  ELSE
  LET c == Evaluate(ctx(redeem.v), Front(a.stack))
      sig2 == sig \/ c.sig
  IN
  IF c.err # "" THEN Verdict(FALSE, c.err, c, sig2)
  ELSE IF c.stack = << >> THEN Verdict(FALSE, "SCRIPT_ERR_EVAL_FALSE_NO_P2SH_STACK", c, sig2)
  ELSE IF ~CastToBool(Last(c.stack), env.dev) THEN Verdict(FALSE, "SCRIPT_ERR_EVAL_FALSE_IN_P2SH_STACK", c, sig2)
  ELSE Verdict(TRUE, "", c, sig2)
=============================================================================
