-------------------------------- MODULE M_Vm --------------------------------
(***************************************************************************)
(* Model for C15, C16: every opcode on every small stack.  Arithmetic and  *)
(* tests get every combination of the values in Values; operations that    *)
(* only move elements get stacks of distinct elements.  The laws that      *)
(* connect the operations are checked, every program is emitted.           *)
(***************************************************************************)
EXTENDS Interp, Json, FiniteSets
VARIABLES op, vals, flags, vm
vars == << op, vals, flags, vm >>

Values == { << >>, << 1 >>, << 2 >>, << 16 >>, << 129 >>, << 128 >>, << 0 >>, << 1, 0 >>, << 0, 1 >>, << 0, 128 >>,
            << 255, 255, 255, 127 >>, << 255, 255, 255, 255 >>, << 0, 0, 0, 128, 0 >> }
Numeric == {139, 140, 143, 144, 145, 146, 147, 148, 165} \cup 154..164
Tests   == {105, 115, 135, 136} \cup 166..170
Mover   == (79..185 \cup {186, 200, 255}) \ (Numeric \cup Tests \cup {99, 100, 103, 104} \cup 172..175)
Arity(o) == IF o \in DOMAIN Needs THEN Needs[o] ELSE 0
MaxDepth(o) == IF o \in Numeric \cup Tests THEN Arity(o) ELSE IF o \in {121, 122} THEN 4 ELSE 7
Choices(o, k) ==
  IF o \in Numeric \cup Tests THEN IF o = 165 /\ k = 1 THEN Values \ {<< 16 >>, << 0, 128 >>, << 0, 1 >>} ELSE Values
  ELSE IF o \in {121, 122} THEN {<< >>, << 1 >>, << 2 >>, << 129 >>, << 3 >>, << 10 + k >>, << 255, 255, 255, 255, 0 >>}
  ELSE {<< 10 + k >>}

Ctx(p, f) == [flags |-> f, lock |-> << >>, seq |-> << >>, tx |-> 0, nin |-> 1, is |-> p, dev |-> FALSE]
Apply(o, f, vs) == Step(StartVm(vs), Ctx(<< Op(o) >>, f), Op(o), 1)
Init == /\ op \in Numeric \cup Tests \cup Mover /\ vals = << >> /\ flags \in {0, F_MINIMALDATA + F_NOPS}
        /\ vm = Apply(op, flags, << >>)
Next == /\ Len(vals) < MaxDepth(op)
        /\ \E v \in Choices(op, Len(vals) + 1) :
             vals' = Append(vals, v) /\ vm' = Apply(op, flags, vals') /\ UNCHANGED << op, flags >>
Spec == Init /\ [][Next]_vars

Bag(st) == [x \in RangeOf(st) |-> Cardinality({i \in 1..Len(st) : st[i] = x})]
Ok == vm.err = ""
SameElements == (Ok /\ op \in {113, 114, 122, 123, 124}) =>
  Bag(vm.stack) = Bag(IF op = 122 THEN Front(vals) ELSE vals)
Cycles == 
  /\ op = 124 /\ Ok => Apply(124, flags, vm.stack).stack = vals
  /\ op = 114 /\ Ok => Apply(114, flags, vm.stack).stack = vals
  /\ op = 123 /\ Ok => Apply(123, flags, Apply(123, flags, vm.stack).stack).stack = vals
  /\ op = 113 /\ Ok => Apply(113, flags, Apply(113, flags, vm.stack).stack).stack = vals
\* How much the stack grows
Growth == [ o \in {79} \cup 81..96 \cup {116, 118, 120, 125, 130} |-> 1 ] @@ [ o \in {110, 112} |-> 2 ] @@ [ o \in {111} |-> 3 ]
          @@ [ o \in {105, 107, 117, 119, 122, 135} \cup {147, 148} \cup (154..164 \ {157}) |-> -1 ]
          @@ [ o \in {109, 136, 157, 165} |-> -2 ] @@ [ o \in {97, 113, 114, 121, 123, 124, 139, 140, 143, 144, 145, 146, 171, 176, 177} \cup 166..170 \cup 178..185 |-> 0 ]
Grows == (Ok /\ op # 115) => op \in DOMAIN Growth /\ Len(vm.stack) = Len(vals) + Growth[op]
OnlyTheTop == Ok => LET k == IF op \in {121, 122} THEN Len(vals) ELSE Min2(Arity(op), Len(vals))
                    IN  IsPrefixOf(Below(vals, k), vm.stack)
Res(o) == Apply(o, flags, vals).stack
Swapped(o) == Apply(o, flags, << vals[2], vals[1] >>).stack
Laws == (op = 147 /\ Ok /\ Len(vals) = 2) =>
  /\ Res(147) = Swapped(147) /\ Res(159) = Swapped(160) /\ Res(161) = Swapped(162)
  /\ Res(163) = Swapped(163) /\ Res(164) = Swapped(164)
  /\ (Res(159) = << << 1 >> >>) = (Res(162) = << << >> >>)
  /\ (Res(156) = << << 1 >> >>) = (Res(158) = << << >> >>)
  /\ Res(156)[1] = BoolBytes(Res(161)[1] = << 1 >> /\ Res(162)[1] = << 1 >>)
  /\ SAdd(ScriptNumValue(Res(163)[1]), ScriptNumValue(Res(164)[1])) = ScriptNumValue(Res(147)[1])
  /\ SAdd(ScriptNumValue(Res(148)[1]), ScriptNumValue(vals[2])) = ScriptNumValue(vals[1])
WithinLaw == (op = 165 /\ Ok) =>
  vm.stack = << BoolBytes(/\ Apply(162, flags, << vals[1], vals[2] >>).stack = << << 1 >> >>
                          /\ Apply(159, flags, << vals[1], vals[3] >>).stack = << << 1 >> >>) >>
ResultsMinimal == (Ok /\ op \in Numeric \ {157}) => IsMinimalNum(Last(vm.stack))
\* Without the flag every outcome that the flag allows is the same
FlagOnlyRefuses == (Ok /\ flags # 0) => vm.stack = Apply(op, 0, vals).stack
DisabledFail == op \in Disabled => ~Ok
PushText(v) == IF v = << >> THEN Op(0) ELSE IF Len(v) = 1 /\ v[1] \in 1..16 THEN Op(80 + v[1]) ELSE IF v = << 129 >> THEN Op(79) ELSE PushOf(v)
Emit == (Len(vals) = MaxDepth(op) \/ (Len(vals) < Arity(op)) \/ op \in Mover) =>
  PrintT("@" \o ToJson([op |-> "prog", b |-> ScriptBytes([k \in 1..Len(vals) |-> PushText(vals[k])] \o << Op(op) >>), flags |-> flags]))
=============================================================================
