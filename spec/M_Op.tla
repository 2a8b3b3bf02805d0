-------------------------------- MODULE M_Op --------------------------------
(***************************************************************************)
(* Model for C26: every opcode with data of chosen lengths and first       *)
(* bytes.  An instruction is minimal exactly when no other instruction     *)
(* that leaves the same element on the stack takes fewer bytes, the push   *)
(* chosen for a length is the shortest that can carry it, and every        *)
(* instruction is read back from its bytes.  All are replayed.             *)
(***************************************************************************)
EXTENDS S_Op, Json
CONSTANTS Lengths
ManyLengths == (1..80) \cup {100, 254, 255, 256, 257, 519, 520, 521}
VARIABLES op, has, data
vars == << op, has, data >>

Init == op \in 0..255 /\ has = FALSE /\ data = << >>
GiveData == ~has /\ has' = TRUE /\ UNCHANGED << op, data >>
Fill == /\ has /\ data = << >>
        /\ \E n \in Lengths : \E x \in {0, 1, 16, 17, 128, 129, 255} : data' = Times(x, n)
        /\ UNCHANGED << op, has >>
\* Exactly as long as the opcode says
Exact == /\ has /\ data = << >> /\ op \in 2..75
         /\ data' = Times(op, op)
         /\ UNCHANGED << op, has >>
Next == GiveData \/ Fill \/ Exact
Spec == Init /\ [][Next]_vars

I == Ins(op, has, data)
\* What a push leaves on the stack
Element(i) == IF i.push THEN i.data
              ELSE IF i.op = 0 THEN << >> ELSE IF i.op = 79 THEN << 129 >> ELSE << i.op - 80 >>
Pushers(d) == { Op(n) : n \in {0, 79} \cup (81..96) } \cup { Push(n, d) : n \in ({Len(d)} \cap 1..75) \cup (76..78) }
SameEffect(i) == { j \in Pushers(i.data) : ValidIns(j) /\ Element(j) = i.data }
Shortest ==
  (ValidIns(I) /\ I.push) =>
    (MinimalPush(I) <=> \A j \in SameEffect(I) : Len(InsBytes(j)) >= Len(InsBytes(I)))
ChosenIsShortest ==
  (has /\ data # << >>) =>
    LET p == PushForLen(SOf(Len(data))) IN
    /\ p.ok /\ ValidIns(Push(p.v, data))
    /\ \A n \in 1..78 : ValidIns(Push(n, data)) => Len(InsBytes(Push(n, data))) >= Len(InsBytes(Push(p.v, data)))
ReadBack == ValidIns(I) => ParseScript(InsBytes(I)) = Yes(<< I >>)
Inverse == \A k \in 0..16 : IsSmallInt(OpFor(k)) /\ NumberOf(OpFor(k)) = k
Emit == PrintT("@" \o ToJson([op |-> op, has |-> has, x |-> IF data = << >> THEN 0 ELSE data[1], n |-> Len(data)]))
=============================================================================
