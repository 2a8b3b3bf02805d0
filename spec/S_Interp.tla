------------------------------ MODULE S_Interp ------------------------------
(***************************************************************************)
(* What the interpreter may answer (C15, C16, C17).                        *)
(* ev.a: sig, pub: the scripts' bytes; flags; tx: the transaction (or none *)
(* set); nin: from 0.  ev.r: the answer; ev.err: errstr up to a colon;     *)
(* ev.stack, ev.alt: what is left (observations, bottom first).            *)
(***************************************************************************)
EXTENDS Interp, Obs

TxNum(x) == x.v
TxOfArg(a) ==
  [version |-> a.version.v, lock |-> a.lock.v,
   ins |-> [j \in 1..Len(a.ins) |-> [txid |-> a.ins[j].txid, index |-> a.ins[j].index.v, seq |-> a.ins[j].seq.v, script |-> a.ins[j].script]],
   outs |-> [j \in 1..Len(a.outs) |-> [amount |-> a.outs[j].amount.v, script |-> a.outs[j].script]]]
\* Without a transaction: lock time 0, final
NoTx == [version |-> << 1 >>, lock |-> << >>,
         ins |-> << [txid |-> Times(0, 32), index |-> << >>, seq |-> Times(255, 4), script |-> << >>] >>,
         outs |-> << [amount |-> << >>, script |-> << >>] >>]
EnvOf(a, dev) ==
  LET t == TLCEval(IF "version" \in DOMAIN a.tx THEN TxOfArg(a.tx) ELSE NoTx)
  IN  [flags |-> a.flags, tx |-> t, nin |-> a.nin + 1, lock |-> t.lock, seq |-> t.ins[a.nin + 1].seq, dev |-> dev]

ObsStack(st) == OList([j \in 1..Len(st) |-> OBytes(st[j])])
\* The run ended without failing, whatever the value on top
Completed(v) == v.err \in {"", "SCRIPT_ERR_EVAL_FALSE_NO_RESULT", "SCRIPT_ERR_EVAL_FALSE_IN_STACK",
                           "SCRIPT_ERR_EVAL_FALSE_NO_P2SH_STACK", "SCRIPT_ERR_EVAL_FALSE_IN_P2SH_STACK"}
Answer(ev, v) == ev.r = OBool(v.ok)
Reason(ev, v) == v.ok \/ v.open \/ v.sig \/ ev.err = v.err
Stacks(ev, v) == (Completed(v) /\ ~v.sig) => ev.stack = ObsStack(v.vm.stack) /\ ev.alt = ObsStack(v.vm.alt)
Matches(ev, v) == Answer(ev, v) /\ Reason(ev, v) /\ Stacks(ev, v)

Verify(ev) ==
  LET sigis == TLCEval(ParseScript(ev.a.sig).v)
      pubis == TLCEval(ParseScript(ev.a.pub).v)
      v == TLCEval(VerifyScript(sigis, pubis, EnvOf(ev.a, FALSE)))
      both(name) == {"C15:" \o name, "C16:" \o name}
  IN
  IF ev.r.k # "bool"
  THEN {"C15:verification answers yes or no", "C16:verification answers yes or no", "C17:verification answers yes or no"}
  ELSE
    Clause("C17:accepted only with the signatures it requires", ev.r = OBool(TRUE) => v.ok \/
             VerifyScript(sigis, pubis, EnvOf(ev.a, TRUE)).ok)
    \cup
    (IF Matches(ev, v) THEN {}
     ELSE IF v.sig /\ v.ok
     THEN {"C16:KNOWN a script that checks signatures is refused although they are valid"}
     ELSE LET w == TLCEval(VerifyScript(sigis, pubis, EnvOf(ev.a, TRUE))) IN
          IF w # v /\ Matches(ev, w)
          THEN both("KNOWN an element that begins with a zero byte counts as false")
          ELSE (IF ~Answer(ev, v) THEN both("the answer of the verification") ELSE {})
               \cup (IF Answer(ev, v) /\ ~Reason(ev, v) THEN both("the reason of the failure") ELSE {})
               \cup (IF Answer(ev, v) /\ ~Stacks(ev, v) THEN {"C15:the stacks at the end"} ELSE {}))

Interp_Failing(st, ev) == CASE ev.op = "verify" -> Verify(ev)
=============================================================================
