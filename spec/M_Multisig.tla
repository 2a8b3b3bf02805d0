----------------------------- MODULE M_Multisig -----------------------------
(***************************************************************************)
(* Model for C14: an m-of-n input and every list of keys that somebody     *)
(* could pass, of its n keys and one foreign one.  A list may sign iff it  *)
(* has m distinct keys of the input; then sorting the signatures by the    *)
(* position of their keys satisfies the multisig check, and every other    *)
(* order fails it.  Every case is emitted.                                 *)
(***************************************************************************)
EXTENDS Tx, Json, FiniteSets
CONSTANTS MaxN
VARIABLES n, m, list
vars == << n, m, list >>
Foreign == 0
Init == n \in 1..MaxN /\ m \in 1..n /\ list = << >>
Next == Len(list) <= m /\ \E k \in 0..n : list' = Append(list, k) /\ UNCHANGED << n, m >>
Spec == Init /\ [][Next]_vars

Keys_ == [j \in 1..n |-> j]
Valid(s, k) == s = k
Distinct == Cardinality(RangeOf(list)) = Len(list)
MaySign == Len(list) = m /\ Distinct /\ Foreign \notin RangeOf(list)
Sorted(q) == \A a, b \in 1..Len(q) : a < b => q[a] < q[b]
SortSeq_(q) == CHOOSE p \in [1..Len(q) -> RangeOf(q)] : Sorted(p)
AcceptedInKeyOrder == MaySign => MatchInOrder(SortSeq_(list), Keys_, Valid)
OrderMatters == (Len(list) = m /\ Len(list) > 0 /\ ~(MaySign /\ Sorted(list))) => ~MatchInOrder(list, Keys_, Valid)
Emit == PrintT("@" \o ToJson([op |-> "keys", n |-> n, m |-> m, list |-> list, may |-> MaySign]))
=============================================================================
