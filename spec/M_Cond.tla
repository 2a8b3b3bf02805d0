------------------------------- MODULE M_Cond -------------------------------
(***************************************************************************)
(* Model for C15: all programs of up to MaxLen instructions over           *)
(* conditionals and pushes, executed while they are written (scripts have  *)
(* no jumps backwards).  Whether an instruction is executed is compared    *)
(* with a definition by counting the OP_ELSEs of each open conditional.    *)
(***************************************************************************)
EXTENDS Interp, Json, FiniteSets
CONSTANTS MaxLen, Flags
VARIABLES prog, vm, taken
vars == << prog, vm, taken >>
\* taken[i]: what the IF at i decided, "skipped" if it was not executed

Palette == { Op(0), Op(81), Op(99), Op(100), Op(103), Op(104), Push(2, << 0, 1 >>), Op(105) }
Ctx(p) == [flags |-> Flags, lock |-> << >>, seq |-> << >>, tx |-> 0, nin |-> 1, is |-> p, dev |-> FALSE]
Init == prog = << >> /\ vm = StartVm(<< >>) /\ taken = << >>
Next == /\ Len(prog) < MaxLen /\ vm.err = ""
        /\ \E x \in Palette :
             /\ prog' = Append(prog, x)
             /\ vm' = Step(vm, Ctx(prog'), x, Len(prog'))
             /\ taken' = Append(taken, IF x.op \notin {99, 100} THEN "none"
                                       ELSE IF ~Executing(vm) \/ vm.stack = << >> THEN "skipped"
                                       ELSE IF CastToBool(Last(vm.stack), FALSE) = (x.op = 99) THEN "yes" ELSE "no")
Spec == Init /\ [][Next]_vars

\* Nesting depth before position i
RECURSIVE Depth(_, _)
Depth(p, i) == IF i <= 1 THEN 0
               ELSE Depth(p, i - 1) + (IF p[i - 1].op \in {99, 100} THEN 1 ELSE IF p[i - 1].op = 104 THEN -1 ELSE 0)
\* The IFs still open at the end: no later instruction closes them
Open(p) == { i \in 1..Len(p) : p[i].op \in {99, 100} /\ \A k \in (i + 1)..Len(p) + 1 : Depth(p, k) > Depth(p, i) }
Elses(p, i) == { k \in (i + 1)..Len(p) : p[k].op = 103 /\ Depth(p, k) = Depth(p, i) + 1 }
Selected(p) ==
  \A i \in Open(p) :
    LET odd == Cardinality(Elses(p, i)) % 2 = 1
    IN  IF odd THEN taken[i] \in {"no", "skipped"} ELSE taken[i] = "yes"
ExecutesSelectedBranches == vm.err = "" =>
  /\ Len(vm.cond) = Cardinality(Open(prog))
  /\ (Executing(vm) <=> Selected(prog))
BalancedNeverNegative == vm.err = "" => \A i \in 1..(Len(prog) + 1) : Depth(prog, i) >= 0
SkippedLeavesStacks == [][(vm'.err = "" /\ ~Executing(vm) /\ prog'[Len(prog')].op \notin {99, 100, 103, 104})
                            => vm'.stack = vm.stack /\ vm'.alt = vm.alt]_vars
Limits == vm.err = "" => vm.ops <= MaxOps /\ Len(vm.stack) + Len(vm.alt) <= MaxStack
Emit == (Len(prog) = MaxLen \/ vm.err # "") => PrintT("@" \o ToJson([op |-> "prog", b |-> ScriptBytes(prog), flags |-> Flags]))
=============================================================================
