-------------------------------- MODULE S_HD --------------------------------
(***************************************************************************)
(* What the code may do: extended keys (C19).  The state of a session is   *)
(* the sequence of the extended keys made so far, one for every call (No   *)
(* for a call that is refused); calls refer to them by their number.       *)
(***************************************************************************)
EXTENDS HD, Obs

XObs(x) ==
  [k |-> "obj", t |-> IF x.priv THEN "HDPrivateKey" ELSE "HDPublicKey",
   f |-> [ secret |-> IF x.priv THEN ONat(x.secret) ELSE ONone,
           x |-> ONat(x.P[1]), y |-> ONat(x.P[2]), chain |-> OBytes(x.chain), depth |-> ONat(BNOf(x.depth)),
           index |-> ONat(x.index), parent |-> ONat(x.parent), network |-> OText(x.net.name),
           keynet |-> OText(x.net.name), compressed |-> OBool(TRUE),
           fingerprint |-> ONat(Fingerprint(x)), string |-> OText(XText(x)) ]]

\* What the call means in the state st
Meaning(st, ev) ==
  CASE ev.op = "seed"   -> Master(ev.a.b)
    [] ev.op = "xpriv"  -> ParseX(ev.a.t, TRUE)
    [] ev.op = "xpub"   -> ParseX(ev.a.t, FALSE)
    [] ev.op = "make"   -> ParseX(ev.a.t, ev.a.priv)    \* the constructor, given the parts of this string
    [] ev.op = "derive" -> LET x == st[ev.a.of] IN
                           IF x.ok THEN Ckd(x.v, ChildIndex(ev.a.i, ev.a.hardened)) ELSE No
    [] ev.op = "neuter" -> LET x == st[ev.a.of] IN IF x.ok THEN Yes(Neuter(x.v)) ELSE No
    [] ev.op = "reread" -> st[ev.a.of]
    [] ev.op \in {"same", "fresh"} -> No

\* Master keys made without a seed: each is some master key, and no two are the same
IsMaster(r) ==
  /\ r.k = "obj" /\ r.f.secret.k = "int" /\ r.f.chain.k = "bytes" /\ Len(r.f.chain.v) = 32
  /\ ValidSecret(SInt(r.f.secret.neg, r.f.secret.v))
  /\ r = XObs([priv |-> TRUE, secret |-> r.f.secret.v, P |-> PubPoint(r.f.secret.v), chain |-> r.f.chain.v,
               depth |-> 0, index |-> << >>, parent |-> << >>, net |-> Livenet])
Fresh(ev) ==
  Clause("C19:a random master key", \A i \in 1..Len(ev.r.items) : IsMaster(ev.r.items[i]))
  \cup Clause("C19:random master keys differ",
         \A i, j \in 1..Len(ev.r.items) : i # j => ev.r.items[i] # ev.r.items[j])

HD_After(st, ev) == IF ev.op \in {"same", "fresh"} THEN Append(st, No) ELSE Append(st, TLCEval(Meaning(st, ev)))
HD_Start(h) == << >>

Name(op) == CASE op = "seed" -> "master key" [] op = "derive" -> "derivation" [] op = "neuter" -> "making public"
              [] op = "reread" -> "writing and reading back" [] op = "make" -> "putting a key together" [] OTHER -> "reading a string"
HD_Failing(st, ev) ==
  IF ev.op = "fresh" THEN Fresh(ev)
  ELSE IF ev.op = "same"
  THEN LET x == st[ev.a.p]  y == st[ev.a.q]
       IN  IF x.ok /\ y.ok THEN Clause("C19:equal extended keys are equal", ev.r = OBool(x.v = y.v)) ELSE {}
  ELSE IF "of" \in DOMAIN ev.a /\ ~st[ev.a.of].ok THEN {}
  ELSE LET w == Meaning(st, ev)
           odd == w.ok /\ ev.op \in {"xpriv", "xpub"} /\ OddMaster(w.v)
       IN  IF ~w.ok THEN Clause("C19:refused: " \o Name(ev.op), Refused(ev.r))
           ELSE Clause("C19:" \o Name(ev.op), ev.r = XObs(w.v) \/ (odd /\ Refused(ev.r)))
=============================================================================
