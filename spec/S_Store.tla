------------------------------ MODULE S_Store -------------------------------
(***************************************************************************)
(* What the code may do: objects are immutable, hashable values (C23).     *)
(* An event: the call a, whether it gave an object (r), and then           *)
(*   obs   for every object made so far, a digest of all that can be seen  *)
(*         of it (fields and serializations), and hash: its hash           *)
(*   eq    for every object made so far, against the new one, the outcome  *)
(*         of ==, != and of comparing the hashes (0, 1; 2: an exception)   *)
(*   ids   of the new object, digests of the forms that tell objects of    *)
(*         its kind apart (bytes, hexadecimal, identifiers), one by one    *)
(***************************************************************************)
EXTENDS Store, Obs

Store_Start(h) == [objs |-> << >>, obs |-> << >>, hash |-> << >>, ids |-> << >>]
Broken == Simple("broken", << >>, 0)
New(st, ev) == IF Makes(ev.a) THEN << IF ev.r.k = "object" THEN Made(st.objs, ev.a) ELSE Broken >> ELSE << >>
Skipped(ev) == ev.r.k = "skipped"
Store_After(st, ev) ==
  [objs |-> IF Skipped(ev) THEN (IF Makes(ev.a) THEN Append(st.objs, Broken) ELSE st.objs) ELSE st.objs \o New(st, ev),
   obs |-> ev.obs, hash |-> ev.hash, ids |-> IF Makes(ev.a) THEN Append(st.ids, ev.ids) ELSE st.ids]

Store_Failing(st, ev) ==
  LET n == Len(st.objs)
      new == New(st, ev)
  IN
  \* a call whose objects could not be made before is not judged
  (IF Skipped(ev) THEN {}
   ELSE Clause("C23:the call " \o ev.a.f \o " succeeds", Makes(ev.a) => ev.r.k = "object"))
  \cup Clause("C23:no object is changed by " \o ev.a.f, \A j \in 1..n : ev.obs[j] = st.obs[j])
  \cup Clause("C23:no hash is changed by " \o ev.a.f, \A j \in 1..n : ev.hash[j] = st.hash[j])
  \cup Clause("C23:fields cannot be reassigned", ev.a.f = "assign" /\ ~Skipped(ev) => ev.r = OBool(TRUE))
  \cup (IF Skipped(ev) \/ new = << >> \/ ev.r.k # "object" THEN {}
        ELSE LET me == new[1]
                 Same == { j \in 1..n : st.objs[j].cls = me.cls /\ SameContents(st.objs[j], me) }
                 \* two signed transactions may or may not be the same
                 Open(o) == o.cls = "tx" /\ o.p[3] = "signed"
                 Other == { j \in 1..n : st.objs[j].cls = me.cls /\ ~SameContents(st.objs[j], me) /\ ~(Open(st.objs[j]) /\ Open(me)) }
             IN  Clause("C23:the new object is equal to itself and can be hashed", ev.eq[n + 1] = << 1, 0, 1 >>)
                 \cup Clause("C23:what is made from the same has the same contents", \A j \in Same : ev.obs[j] = ev.obs[n + 1])
                 \cup Clause("C23:what is made from something else has other contents", \A j \in Other : ev.obs[j] # ev.obs[n + 1])
                 \cup Clause("C23:what is made from something else has other serializations and identifiers",
                        \A j \in Other : /\ Len(st.ids[j]) = Len(ev.ids)
                                         /\ \A k \in 1..Len(ev.ids) : st.ids[j][k] # ev.ids[k])
                 \cup Clause("C23:what is made from the same has the same serializations and identifiers",
                        \A j \in Same : st.ids[j] = ev.ids)
                 \cup Clause("C23:objects with the same contents are equal and hash equally",
                        \A j \in Same : ev.eq[j] = << 1, 0, 1 >>)
                 \cup Clause("C23:objects with different contents are unequal",
                        \A j \in Other : ev.eq[j][1] = 0 /\ ev.eq[j][2] = 1))
=============================================================================
