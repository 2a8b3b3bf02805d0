------------------------------ MODULE M_Store -------------------------------
(***************************************************************************)
(* Model for C23: all programs of up to Length calls after a fixed start   *)
(* (breadth first), or long programs chosen at random (simulation).  Each  *)
(* call is chosen in two steps: its name, then its arguments.  Objects     *)
(* once made stay what they are, equality is an equivalence, conversions   *)
(* commute.  Every program is replayed on the real code.                   *)
(***************************************************************************)
EXTENDS Store, Json, SequencesExt
CONSTANTS Length, WithBase
VARIABLES store, hist, pick
vars == << store, hist, pick >>

N == Len(store)
Of(cls) == { i \in 1..N : store[i].cls = cls }
OfAny(S) == { i \in 1..N : store[i].cls \in S }
Nets == {"livenet", "testnet"}
Seqs == {"0", "1", "4294967295", "4294967294"}
Nums == {"0", "1", "2147483647"}
Vias == {"bytes", "hex", "text"}
Args == {"list", "tuple", "gen", "create"}
Insns == { << 0, "" >>, << 81, "" >>, << 96, "" >>, << 118, "" >>, << 172, "" >>, << 1, "ff" >>, << 1, "00" >>, << 2, "0102" >>, << 76, "" >>, << 76, "0102" >>,
           << 77, "0102" >>, << 78, "ff" >> }
Upto2(S) == { << a >> : a \in S } \cup { << a, b >> : a \in S, b \in S }
\* one or two public keys, different ones
Pubs == Upto2(Of("pub"))
PubLists == { is \in Pubs : Len(is) = 2 => ~(store[is[1]].p[1] = store[is[2]].p[1]) }
\* The calls with a name, given the store
Calls(f) ==
  CASE f = "priv_new" -> { [f |-> f, k |-> k, net |-> n, comp |-> c] : k \in 1..3, n \in Nets, c \in {"c", "u"} }
    [] f = "priv_back" -> { [f |-> f, i |-> i, via |-> v] : i \in Of("priv"), v \in Vias }
    [] f = "pub_of" -> { [f |-> f, i |-> i] : i \in Of("priv") }
    [] f = "pub_back" -> { [f |-> f, i |-> i, via |-> v] : i \in Of("pub"), v \in {"bytes", "hex", "pair"} }
    [] f = "addr_of" -> { [f |-> f, i |-> i] : i \in OfAny({"priv", "pub"}) }
    [] f = "addr_of_script" -> { [f |-> f, i |-> i, net |-> n] : i \in Of("script"), n \in Nets }
    [] f = "addr_back" -> { [f |-> f, i |-> i, via |-> v] : i \in Of("addr"), v \in Vias }
    [] f = "hd_seed" -> { [f |-> f, s |-> s] : s \in 1..2 }
    [] f = "hd_derive" -> { [f |-> f, i |-> i, index |-> x, hard |-> h, way |-> w] : i \in Of("hdpriv"), x \in Nums, h \in BOOLEAN, w \in 0..1 }
                          \cup { [f |-> f, i |-> i, index |-> x, hard |-> FALSE, way |-> 0] : i \in Of("hdpub"), x \in Nums }
    [] f = "hd_pub" -> { [f |-> f, i |-> i] : i \in Of("hdpriv") }
    [] f = "hd_key" -> { [f |-> f, i |-> i] : i \in OfAny({"hdpriv", "hdpub"}) }
    [] f = "hd_back" -> { [f |-> f, i |-> i] : i \in OfAny({"hdpriv", "hdpub"}) }
    [] f = "ins_new" -> { [f |-> f, op |-> x[1], d |-> x[2]] : x \in Insns }
    [] f = "script_new" -> { [f |-> f, is |-> is, arg |-> a] : is \in {<< >>} \cup Upto2(Of("ins")), a \in Args }
    [] f = "script_back" -> { [f |-> f, i |-> i, via |-> v] : i \in Of("script"), v \in {"bytes", "text", "schematic"} }
    [] f = "p2pkh" -> { [f |-> f, i |-> i] : i \in { j \in Of("addr") : store[j].p[3] = "pubkeyhash" } }
    [] f = "p2sh" -> { [f |-> f, i |-> i] : i \in Of("script") }
    [] f = "multisig" -> UNION { { [f |-> f, is |-> is, m |-> m] : m \in 1..Len(is) } : is \in PubLists }
    [] f = "in_new" -> { [f |-> f, tx |-> t, n |-> n, i |-> i, seq |-> s, arg |-> a] :
                           t \in 1..2, n \in 0..1, i \in Of("script"), s \in {"0", "4294967295"}, a \in {"new", "create"} }
    [] f = "in_addr" -> { [f |-> f, tx |-> t, n |-> n, i |-> i, seq |-> s] :
                           t \in 1..2, n \in 0..1, i \in { j \in Of("addr") : store[j].p[3] = "pubkeyhash" }, s \in {"0", "4294967295"} }
    [] f = "in_multi" -> { [f |-> f, tx |-> t, n |-> 0, is |-> is, seq |-> "1"] : t \in 1..2, is \in PubLists }
    [] f = "in_script" -> { [f |-> f, tx |-> t, n |-> 0, i |-> i, seq |-> s] : t \in 1..2, i \in Of("script"), s \in {"0", "4294967295"} }
    [] f = "in_back" -> { [f |-> f, i |-> i, via |-> v] : i \in Of("in"), v \in {"bytes", "hex"} }
    [] f = "in_remove" -> { [f |-> f, i |-> i] : i \in Of("in") }
    [] f = "in_replace" -> { [f |-> f, i |-> i, j |-> j] : i \in Of("in"), j \in Of("script") }
    [] f = "out_new" -> { [f |-> f, amount |-> m, i |-> i, arg |-> a] : m \in {0, 1, 2000000000}, i \in Of("script"), a \in {"new", "create"} }
    [] f = "out_addr" -> { [f |-> f, amount |-> m, i |-> i] : m \in {0, 7}, i \in { j \in Of("addr") : store[j].p[3] = "pubkeyhash" } }
    [] f = "out_script" -> { [f |-> f, amount |-> m, i |-> i] : m \in {0, 7}, i \in Of("script") }
    [] f = "out_multi" -> { [f |-> f, amount |-> 7, is |-> is] : is \in PubLists }
    [] f = "out_data" -> { [f |-> f, d |-> d] : d \in {"0102", "ff00"} }
    [] f = "out_back" -> { [f |-> f, i |-> i, via |-> v] : i \in Of("out"), v \in {"bytes", "hex"} }
    [] f = "tx_new" -> { [f |-> f, is |-> is, os |-> os, lock |-> l, version |-> "1", arg |-> a] :
                           is \in Upto2(Of("in")), os \in Upto2(Of("out")), l \in {"0", "500000000"}, a \in {"list", "tuple", "gen"} }
    [] f = "tx_back" -> { [f |-> f, i |-> i, via |-> v] : i \in Of("tx"), v \in {"bytes", "hex"} }
    [] f = "tx_replace" -> { [f |-> f, i |-> i, is |-> is] : i \in Of("tx"), is \in Upto2(Of("in")) }
    [] f = "tx_sign" -> UNION { { [f |-> f, i |-> i, n |-> n, key |-> store[i].x[n]] : n \in { m \in 1..Len(store[i].x) : store[i].x[m] # 0 } } : i \in Of("tx") }
    [] f = "copy" -> { [f |-> f, i |-> i, via |-> v] : i \in 1..N, v \in Copies }
    [] f = "sign" -> { [f |-> f, i |-> i] : i \in Of("priv") }
    [] f = "interp" -> { [f |-> f, i |-> i, j |-> j] : i \in Of("script"), j \in Of("script") }
    [] f \in {"assign", "poke", "use"} -> { [f |-> f, i |-> i] : i \in 1..N }
    \* the caller changes the lists it passed to earlier calls
    [] f = "caller" -> { [f |-> f, how |-> h] : h \in {"clear", "append", "reverse"} }
Names == BackOps \cup UseOps \cup {"copy", "priv_new", "pub_of", "addr_of", "addr_of_script", "hd_seed", "hd_derive", "hd_pub", "hd_key", "ins_new", "script_new",
         "p2pkh", "p2sh", "multisig", "in_new", "in_addr", "in_multi", "in_script", "out_script", "out_multi", "out_data", "in_remove", "in_replace", "out_new", "out_addr", "tx_new", "tx_replace", "tx_sign"}

Base == << [f |-> "priv_new", k |-> 1, net |-> "livenet", comp |-> "c"], [f |-> "pub_of", i |-> 1], [f |-> "addr_of", i |-> 2],
           [f |-> "p2pkh", i |-> 3], [f |-> "ins_new", op |-> 81, d |-> ""], [f |-> "script_new", is |-> << 5, 5 >>, arg |-> "list"],
           [f |-> "in_addr", tx |-> 1, n |-> 0, i |-> 3, seq |-> "4294967295"], [f |-> "out_new", amount |-> 1, i |-> 6, arg |-> "new"],
           [f |-> "tx_new", is |-> << 7 >>, os |-> << 8 >>, lock |-> "0", version |-> "1", arg |-> "list"], [f |-> "hd_seed", s |-> 1] >>
RECURSIVE RunAll(_, _)
RunAll(calls, st) == IF calls = << >> THEN st
                     ELSE RunAll(Tail(calls), IF Makes(Head(calls)) THEN Append(st, Made(st, Head(calls))) ELSE st)

Init == /\ pick = ""
        /\ hist = IF WithBase THEN Base ELSE << >>
        /\ store = IF WithBase THEN RunAll(Base, << >>) ELSE << >>
Start == IF WithBase THEN Len(Base) ELSE 0
Choose_ == /\ pick = "" /\ Len(hist) < Start + Length
           /\ \E f \in Names : Calls(f) # {} /\ pick' = f
           /\ UNCHANGED << store, hist >>
Do == /\ pick \notin {"", "done"} /\ pick' = ""
      /\ \E a \in Calls(pick) :
           /\ hist' = Append(hist, a)
           /\ store' = IF Makes(a) THEN Append(store, Made(store, a)) ELSE store
\* a step of its own, so that a simulation prints only the program that it chose
Finish == pick = "" /\ Len(hist) = Start + Length /\ pick' = "done" /\ UNCHANGED << store, hist >>
Next == Choose_ \/ Do \/ Finish
Spec == Init /\ [][Next]_vars

\* Objects stay what they are
Immutable == [][Len(store') >= N /\ SubSeq(store', 1, N) = store]_vars
\* Contents determine a transaction: signing one input leaves the others alone
Consistent == \A i \in 1..N : store[i].cls = "tx" => Len(store[i].x) = Len(store[i].q) /\ store[i].q # << >> /\ store[i].r # << >>
\* Ways that must meet: the public part of a derived key is derived from the public part; reading
\* back what was written gives the same
Commutes ==
  \A i \in Of("hdpriv") :
    LET d == Made(store, [f |-> "hd_derive", i |-> i, index |-> "1", hard |-> FALSE, way |-> 0])
        p == Made(store, [f |-> "hd_pub", i |-> i])
        two == store \o << d, p >>
    IN  SameContents(Made(two, [f |-> "hd_pub", i |-> N + 1]), Made(two, [f |-> "hd_derive", i |-> N + 2, index |-> "1", hard |-> FALSE, way |-> 0]))
\* Objects with the same contents give the same when used the same way (congruence)
Congruent ==
  \A i, j \in Of("priv") : SameContents(store[i], store[j]) =>
    SameContents(Made(store, [f |-> "addr_of", i |-> i]), Made(store, [f |-> "addr_of", i |-> j]))
Emit == pick = "done" => PrintT("@" \o ToJson([calls |-> hist]))
=============================================================================
