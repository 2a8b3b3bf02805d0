------------------------------- MODULE Store --------------------------------
(***************************************************************************)
(* The objects that a program using the library has made so far.           *)
(*                                                                         *)
(* An object is described by a term that says how its contents depend on   *)
(* what it was made from; hash functions and point multiplication are      *)
(* taken to be injective, so that two objects of a kind have the same      *)
(* contents exactly if their terms are equal.  All parts of a term are     *)
(* sequences of strings:                                                   *)
(*   cls      the kind                                                     *)
(*   p, q, r  the contents                                                 *)
(* and x (one number per input of a transaction, one otherwise) tells      *)
(* which private key of the store can sign; it is no part of the contents. *)
(*                                                                         *)
(* A call a with name a.f is one step; Made(store, a) is the object that   *)
(* it makes.  No step changes an object.                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

Obj(cls, p, q, r, x) == [cls |-> cls, p |-> p, q |-> q, r |-> r, x |-> x]
Simple(cls, p, x) == Obj(cls, p, << >>, << >>, << x >>)
Txt(o) == o.cls \o ToString(<< o.p, o.q, o.r >>)
SameContents(a, b) == a.cls = b.cls /\ a.p = b.p /\ a.q = b.q /\ a.r = b.r

InsT(op, data) == Txt(Simple("ins", << ToString(op), data >>, 0))
H(s) == "h(" \o s \o ")"
Sec(key, comp) == "sec(" \o key \o "," \o comp \o ")"
SecLen(comp) == IF comp = "c" THEN 33 ELSE 65
ScriptObj(is, x) == Simple("script", is, x)
P2pkh(addr) == ScriptObj(<< InsT(118, ""), InsT(169, ""), InsT(20, addr.p[1]), InsT(136, ""), InsT(172, "") >>, addr.x[1])
P2sh(script) == ScriptObj(<< InsT(169, ""), InsT(20, H(Txt(script))), InsT(135, "") >>, 0)
MultisigObj(pubs, m) ==
  ScriptObj(<< InsT(80 + m, "") >>
            \o [i \in 1..Len(pubs) |-> InsT(SecLen(pubs[i].p[3]), Sec(pubs[i].p[1], pubs[i].p[3]))]
            \o << InsT(80 + Len(pubs), ""), InsT(174, "") >>, 0)
EmptyScript == ScriptObj(<< >>, 0)
InObj(tx, n, script, seq, x) == Simple("in", << ToString(tx), ToString(n), Txt(script), seq >>, x)
OutObj(amount, script) == Simple("out", << ToString(amount), Txt(script) >>, 0)
TxObj(ins, outs, lock, version) ==
  Obj("tx", << lock, version, "" >>, [i \in 1..Len(ins) |-> Txt(ins[i])], [i \in 1..Len(outs) |-> Txt(outs[i])],
      [i \in 1..Len(ins) |-> ins[i].x[1]])
Step_(index, hard) == "/" \o (IF hard THEN "h" ELSE "") \o index

Pick(store, is) == [j \in 1..Len(is) |-> store[is[j]]]
BackOps == {"priv_back", "pub_back", "addr_back", "hd_back", "script_back", "in_back", "out_back", "tx_back"}
\* Copies, by copy and pickle, of any object
Copies == {"copy", "deepcopy", "pickle2", "pickle"}
\* Calls that make nothing
UseOps == {"assign", "poke", "use", "sign", "interp", "caller"}
Makes(a) == a.f \notin UseOps

Made(store, a) ==
  LET me == Len(store) + 1
      o == IF "i" \in DOMAIN a THEN store[a.i] ELSE Simple("", << >>, 0)
  IN
  CASE a.f \in BackOps -> [o EXCEPT !.x = [j \in 1..Len(o.x) |-> 0]]
    [] a.f = "copy" -> o
    [] a.f = "priv_new" -> Simple("priv", << "k" \o ToString(a.k), a.net, a.comp >>, me)
    [] a.f = "pub_of"   -> Simple("pub", o.p, a.i)
    [] a.f = "addr_of"  -> Simple("addr", << H(Sec(o.p[1], o.p[3])), o.p[2], "pubkeyhash" >>, IF o.cls = "priv" THEN a.i ELSE o.x[1])
    [] a.f = "addr_of_script" -> Simple("addr", << H(Txt(o)), a.net, "scripthash" >>, 0)
    [] a.f = "hd_seed"  -> Simple("hdpriv", << "s" \o ToString(a.s), "" >>, 0)
    [] a.f = "hd_derive" -> Simple(o.cls, << o.p[1], o.p[2] \o Step_(a.index, a.hard) >>, 0)
    [] a.f = "hd_pub"   -> Simple("hdpub", o.p, 0)
    [] a.f = "hd_key"   -> Simple(IF o.cls = "hdpriv" THEN "priv" ELSE "pub", << "hd(" \o o.p[1] \o o.p[2] \o ")", "livenet", "c" >>,
                                  IF o.cls = "hdpriv" THEN me ELSE 0)
    [] a.f = "ins_new"  -> Simple("ins", << ToString(a.op), a.d >>, 0)
    [] a.f = "script_new" -> ScriptObj([j \in 1..Len(a.is) |-> Txt(store[a.is[j]])], 0)
    [] a.f = "p2pkh"    -> P2pkh(o)
    [] a.f = "p2sh"     -> P2sh(o)
    [] a.f = "multisig" -> MultisigObj(Pick(store, a.is), a.m)
    [] a.f = "in_new"   -> InObj(a.tx, a.n, o, a.seq, 0)
    [] a.f = "in_addr"  -> InObj(a.tx, a.n, P2pkh(o), a.seq, o.x[1])
    [] a.f = "in_script" -> InObj(a.tx, a.n, o, a.seq, 0)
    [] a.f = "in_multi" -> InObj(a.tx, a.n, MultisigObj(Pick(store, a.is), 1), a.seq, store[a.is[1]].x[1])
    [] a.f = "in_remove" -> Simple("in", [o.p EXCEPT ![3] = Txt(EmptyScript)], 0)
    [] a.f = "in_replace" -> Simple("in", [o.p EXCEPT ![3] = Txt(store[a.j])], 0)
    [] a.f = "out_new"  -> OutObj(a.amount, o)
    [] a.f = "out_addr" -> OutObj(a.amount, P2pkh(o))
    [] a.f = "out_script" -> OutObj(a.amount, P2sh(o))
    [] a.f = "out_multi" -> OutObj(a.amount, P2sh(MultisigObj(Pick(store, a.is), 1)))
    [] a.f = "out_data" -> OutObj(0, ScriptObj(<< InsT(106, ""), InsT(2, a.d) >>, 0))
    [] a.f = "tx_new"   -> TxObj(Pick(store, a.is), Pick(store, a.os), a.lock, a.version)
    [] a.f = "tx_replace" -> LET ins == Pick(store, a.is)
                             IN  [o EXCEPT !.p[3] = "", !.q = [j \in 1..Len(ins) |-> Txt(ins[j])], !.x = [j \in 1..Len(ins) |-> ins[j].x[1]]]
    \* signing makes new contents for the input, which are not determined (p[3] of a transaction says so)
    [] a.f = "tx_sign"  -> [o EXCEPT !.p[3] = "signed", !.q[a.n] = "signed" \o ToString(me), !.x[a.n] = 0]
=============================================================================
