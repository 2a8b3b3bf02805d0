-------------------------------- MODULE S_Uri -------------------------------
(***************************************************************************)
(* What the code may do: payment URIs (C22).                               *)
(*                                                                         *)
(* The observation of a URI object: its address (text and network), amount *)
(* in satoshis or none, the members label, message and r or none, and the  *)
(* extra parameters as a list of pairs of texts.                           *)
(***************************************************************************)
EXTENDS Uri, Obs

AddrIs(o, a) == o.address = OText(AddrText(a)) /\ o.network = OText(a.net.name)
\* S: a set of << name, value >>; the members and extras are exactly those of S
MemberIs(o, S, k) ==
  LET V == { p[2] : p \in { p \in S : p[1] = k } }
  IN  IF V = {} THEN o = ONone ELSE \E v \in V : o = OText(v)
Members == {T_address, T_amount, T_label, T_message, T_r}
Range2(s) == { s[i] : i \in 1..Len(s) }
ExtrasAre(o, S) ==
  /\ o.k = "list"
  /\ \A i \in 1..Len(o.items) : o.items[i].k = "list" /\ Len(o.items[i].items) = 2
  /\ { << o.items[i].items[1], o.items[i].items[2] >> : i \in 1..Len(o.items) }
       = { << OText(p[1]), OText(p[2]) >> : p \in { p \in S : p[1] \notin Members } }
ExtrasHave(o, S) ==
  /\ o.k = "list"
  /\ \A p \in S : p[1] \notin Members => \E i \in 1..Len(o.items) : o.items[i] = OList(<< OText(p[1]), OText(p[2]) >>)

FieldsAre(o, S) == MemberIs(o.label, S, T_label) /\ MemberIs(o.message, S, T_message) /\ MemberIs(o.r, S, T_r) /\ ExtrasAre(o.extras, S)

\* made from a dictionary, written, and read back
\*   a: addr (phash, net, type), sat (ok, v), ps: pairs; all names different
\*   r: the object, text: to_uri, back: URI of that text, again: to_uri of that, rep: repr
UriMade(ev) ==
  LET a == [phash |-> ev.a.b, net |-> NetNamed(ev.a.net).v, type |-> ev.a.type]
      S == Range2(ev.a.ps)
      sat == IF ev.a.hasamt THEN ONat(ev.a.sat) ELSE ONone
      t == ev.text.v
      ps == Params(t)
      same(o) == o.k = "uri" /\ AddrIs(o, a) /\ o.amount = sat /\ FieldsAre(o, S)
  IN  Clause("C22:a URI has what it was made from", same(ev.r))
      \cup IF ev.text.k # "text" THEN {"C22:a URI can be written"}
           ELSE Clause("C22:the written text is plain", \A i \in 1..Len(t) : t[i] \in (33..126) \ {34, 35, 60, 62, 92, 94, 96, 123, 124, 125})
                \cup Clause("C22:the written text is the scheme, the address and parameters",
                       LET want == T_bitcoin \o << 58 >> \o AddrText(a)
                       IN  /\ Len(t) >= Len(want) /\ SubSeq(t, 1, Len(want)) = want
                           /\ Len(t) = Len(want) \/ t[Len(want) + 1] = 63)
                \cup Clause("C22:the written text has the parameters and no others",
                       HasScheme(t) /\ AllClear(t) /\ { p \in ps : p[1] # T_amount } = S)
                \cup Clause("C22:the amount is written in plain decimals",
                       LET A == { p[2] : p \in { p \in ps : p[1] = T_amount } }
                       IN  IF ev.a.hasamt THEN A # {} /\ \A x \in A : IsPlainDecimal(x) /\ IsSatoshis(x, ev.a.sat) ELSE A = {})
                \cup Clause("C22:the written text reads back to the same", same(ev.back))
                \cup Clause("C22:writing again gives the same text", ev.again = ev.text)
                \cup Clause("C22:writing does not change the URI", same(ev.after) /\ ev.twice = ev.text)
                \cup Clause("C22:the written text is valid", ev.valid = OBool(TRUE))

\* The amount that a text gives: exact if it is a whole number of satoshis
AmountOk(o, x) ==
  IF IsPlainDecimal(x) /\ BNLe(NearestSatoshis(x), MaxMoney)
  THEN LET n == NearestSatoshis(x)
       IN  IF IsSatoshis(x, n) THEN o = ONat(n)
           ELSE o.k = "int" /\ o.neg = 0 /\ (IF BNLt(o.v, n) THEN BNSub(n, o.v) ELSE BNSub(o.v, n)) \in {<< >>, BNOne}
  ELSE TRUE

\* a text: is it valid, what does it say
UriRead(ev) ==
  LET t == ev.a.t
      want == Verdict(t)
      S == Params(t)
  IN  Clause("C22:the validity test gives an answer", ev.valid.k = "bool")
      \cup Clause("C22:a text is valid exactly if it can be read", IsHang(ev.r) \/ ev.valid = OBool(ev.r.k = "uri"))
      \cup (CASE want = "open" -> {}
             [] want = "invalid" -> Clause("C22:a text that is no payment URI is refused", Refused(ev.r) /\ ev.valid = OBool(FALSE))
             [] want = "valid" ->
                  IF ev.r.k # "uri" \/ ev.valid # OBool(TRUE) THEN {"C22:a payment URI is accepted"}
                  ELSE LET A == { p[2] : p \in { p \in S : p[1] = T_amount } }
                           \* values other than the well-formed ones are left open, and so is a name used twice
                           f(o, k) == (AllClear(t) \/ \E p \in S : p[1] = k) => MemberIs(o, S, k)
                       IN  Clause("C22:the address is the one in the text", AddrIs(ev.r, UriAddress(t).v))
                           \cup Clause("C22:the amount is the one in the text",
                                  IF A = {} THEN ev.r.amount = ONone ELSE \A x \in A : AmountOk(ev.r.amount, x))
                           \cup Clause("C22:the fields are those in the text",
                                  /\ f(ev.r.label, T_label) /\ f(ev.r.message, T_message) /\ f(ev.r.r, T_r)
                                  /\ IF AllClear(t) THEN ExtrasAre(ev.r.extras, S) ELSE ExtrasHave(ev.r.extras, S)))

Uri_Failing(st, ev) ==
  CASE ev.op = "made" -> UriMade(ev)
    [] ev.op = "read" -> UriRead(ev)
=============================================================================
