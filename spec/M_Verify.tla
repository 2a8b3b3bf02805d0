------------------------------ MODULE M_Verify ------------------------------
(***************************************************************************)
(* Model for C16 (and C17): pairs of scripts from a small library, every   *)
(* combination of the flags, several transactions.  The flags only refuse: *)
(* switching one on never turns a no into a yes.  Pay-to-script-hash means *)
(* that the redeem script, too, has to succeed.  Every case is emitted.    *)
(***************************************************************************)
EXTENDS Interp, Json, FiniteSets
CONSTANTS FlagBits
VARIABLES kind, redeem, tail, flags, lock, seq
vars == << kind, redeem, tail, flags, lock, seq >>

Bits(S) == { 0 } \cup S
RECURSIVE SumOf(_)
SumOf(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN x + SumOf(S \ {x})
AllFlags == { SumOf(S) : S \in SUBSET FlagBits }

\* Redeem scripts, as bytes (some are no scripts at all)
LockPush(n) == << 4 >> \o FixedLE(n, 4)
Redeems == { << 81 >>, << 0 >>, << >>, << 118 >>, << 97, 81 >>, << 81, 105 >>, << 106 >>, << 176, 81 >>, << 1, 5 >>,
             << 2, 1 >>, << 81, 99 >>, << 1, 1, 117, 81 >>,
             << 0, 0, 174 >>, << 172 >>, << 81, 80 >>, << 0, 177 >>, << 1, 100, 177 >> }
LockRedeem == { << 79, 177 >>, << 5, 255, 100, 205, 29, 0, 177 >>, << 4, 0, 101, 205, 29, 177 >>, << 6, 1, 0, 0, 0, 0, 0, 177 >> }
RawPush(b) == IF b = << >> THEN Op(0) ELSE IF Len(b) = 1 /\ b[1] \in 1..16 THEN Op(80 + b[1]) ELSE IF b = << 129 >> THEN Op(79) ELSE PushOf(b)
\* What stands in the input script before the redeem script
Tails == { << >>, << Op(81) >>, << Op(97) >>, << Op(0) >>, << Op(0), Op(0) >>, << Op(80) >>, << Push(1, << 1 >>) >> }
Kinds == {"p2sh", "wrong hash", "bare", "long hash", "pushdata hash"}
SigIs == tail \o (IF kind = "bare" THEN << >> ELSE << RawPush(redeem) >>)
PubIs == CASE kind = "bare" -> LET p == ParseScript(redeem) IN IF p.ok THEN p.v ELSE << Op(106) >>
           [] kind = "p2sh" -> P2shOut(Hash160(redeem))
           [] kind = "wrong hash" -> P2shOut(Hash160(Append(redeem, 0)))
           [] kind = "long hash" -> P2shOut(Sha256(redeem))
           [] OTHER -> << Op(169), Push(76, Hash160(redeem)), Op(135) >>
Locks == { << >>, << 100 >>, << 29, 205, 100, 255 >>, Threshold, Times(255, 4) }
Seqs == { Times(255, 4), << >> }

Init == /\ kind \in Kinds /\ redeem \in Redeems \cup LockRedeem /\ tail \in Tails /\ flags \in AllFlags
        /\ lock \in Locks /\ seq \in Seqs
        /\ (redeem \in LockRedeem \cup {<< 0, 177 >>, << 1, 100, 177 >>} \/ (lock = << >> /\ seq = << >>))
        /\ (kind \in {"bare", "p2sh"} \/ (tail \in {<< >>, << Op(97) >>} /\ redeem \in {<< 81 >>, << >>, << 0 >>, << 1, 5 >>}))
        /\ (lock \in {<< >>, Threshold} \/ tail = << >>)
        /\ (lock = << >> \/ tail \in {<< >>, << Op(81) >>})
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

T == [version |-> << 1 >>, lock |-> lock,
      ins |-> << [txid |-> Times(1, 32), index |-> << >>, seq |-> seq, script |-> << >>] >>,
      outs |-> << [amount |-> << >>, script |-> << 81 >>] >>]
Env(f) == [flags |-> f, tx |-> T, nin |-> 1, lock |-> lock, seq |-> seq, dev |-> FALSE]
V(f) == VerifyScript(SigIs, PubIs, Env(f))
Accepted(f) == V(f).ok
\* (With discouraged no-ops, giving one of them its meaning can also allow it.)
FlagsOnlyRefuse == \A f \in FlagBits : (Has(flags, f) /\ ~(f = F_CLTV /\ Has(flags, F_NOPS))) => (Accepted(flags) => Accepted(flags - f))
P2shRunsRedeem == (kind = "p2sh" /\ Has(flags, F_P2SH) /\ Accepted(flags)) =>
  /\ IsPushOnly(SigIs) /\ ParseScript(redeem).ok
  /\ LET c == Evaluate(Env(flags) @@ [is |-> ParseScript(redeem).v], Evaluate(Env(flags) @@ [is |-> tail], << >>).stack)
     IN  c.err = "" /\ c.stack # << >> /\ CastToBool(Last(c.stack), FALSE)
OnlyTheExactForm == (kind \in {"long hash", "pushdata hash", "bare"}) => ~IsP2shOut(PubIs)
PushOnlyEnforced == (Has(flags, F_SIGPUSHONLY) /\ Accepted(flags)) => IsPushOnly(SigIs)
ReasonGiven == LET v == V(flags) IN v.ok = (v.err = "")
LockTimeRespected == (redeem = << 1, 100, 177 >> /\ kind = "bare" /\ Has(flags, F_CLTV) /\ Accepted(flags)) =>
  seq # Times(255, 4) /\ lock \in {<< 100 >>, << 29, 205, 100, 255 >>}
Signed(n) == [neg |-> 0, v |-> n]
Emit == PrintT("@" \o ToJson([op |-> "pair", sig |-> ScriptBytes(SigIs), pub |-> ScriptBytes(PubIs), flags |-> flags, lock |-> Signed(lock), seq |-> Signed(seq)]))
=============================================================================
