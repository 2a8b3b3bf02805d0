------------------------------- MODULE M_Uri --------------------------------
(***************************************************************************)
(* Model for C22.                                                          *)
(*  - Writing: a URI grows by parameters over an alphabet of awkward       *)
(*    characters (separators, blanks, percent signs, characters of two to  *)
(*    four bytes); whatever it holds, its text reads back to exactly it:   *)
(*    no value can pass for a separator or another parameter.              *)
(*  - Reading: texts grow by pieces of URIs, well-formed or not; a text is *)
(*    never both valid and invalid, and case of the scheme, the form of    *)
(*    the address part and the order of parameters make no difference.     *)
(* Every URI and text is replayed on the real code.                        *)
(***************************************************************************)
EXTENDS Uri, Json
CONSTANTS Alphabet, MaxLen, MaxParams, MaxPieces
VARIABLES mode, u, cur, text, n
vars == << mode, u, cur, text, n >>

Chars == {97, 32, 38, 61, 37, 43, 35, 63, 233, 8364, 128512}
FewChars == {97, 32, 38, 61, 37, 233, 128512}
Hash == TLCEval([i \in 1..20 |-> i * 7])
Addr == [phash |-> Hash, net |-> Livenet, type |-> T_pubkeyhash]
Addr2 == [phash |-> Hash, net |-> Testnet, type |-> T_scripthash]
Start == [addr |-> Addr, sat |-> No, ps |-> << >>]
\* Tokens of candidate texts
A1 == AddrText(Addr)
A2 == AddrText(Addr2)
Scheme == T_bitcoin \o << 58 >>
Upper == << 66, 105, 84, 67, 111, 105, 78, 58 >>
Am == T_amount \o << 61 >>
Firsts == { Scheme, Upper, A1, T_bitcoin, << 58 >>, << 108 >> \o Scheme, << 98, 105, 116, 99, 111, 105, 110, 115, 58 >>, << 47, 47 >> }
Tokens == { Scheme, A1, A2, SubSeq(A1, 1, Len(A1) - 1), << 47, 47 >>, << 47 >>, << 63 >>, << 38 >>, << 61 >>, Am,
            << 49, 46, 53 >>, << 48 >>, << 46 >>, << 98, 97, 100 >>, T_label \o << 61 >>, << 37, 52, 49 >>, << 37 >> }
\* all sequences: enumerated by steps
Init == /\ n = 0 /\ u = Start /\ cur = << << >>, << >> >> /\ text = << >>
        /\ mode \in {"name", "text"}
GrowName == mode = "name" /\ Len(u.ps) < MaxParams /\ Len(cur[1]) < MaxLen
            /\ (\E c \in Alphabet : cur' = << Append(cur[1], c), << >> >>)
            /\ UNCHANGED << mode, u, text, n >>
GrowValue == mode = "name" /\ cur[1] # << >> /\ Len(cur[2]) < MaxLen
             /\ \E c \in Alphabet : cur' = << cur[1], Append(cur[2], c) >>
             /\ UNCHANGED << mode, u, text, n >>
Put == mode = "name" /\ cur[1] # << >> /\ cur[2] # << >> /\ Len(u.ps) < MaxParams
       /\ (\A i \in 1..Len(u.ps) : u.ps[i][1] # cur[1])
       /\ u' = [u EXCEPT !.ps = Append(@, cur)] /\ cur' = << << >>, << >> >>
       /\ UNCHANGED << mode, text, n >>
Field == mode = "name" /\ cur[1] = << >> /\ Len(u.ps) < MaxParams
         /\ \E k \in {T_label, T_message, T_r} : (\A i \in 1..Len(u.ps) : u.ps[i][1] # k) /\ cur' = << k, << >> >>
         /\ UNCHANGED << mode, u, text, n >>
Pay == mode = "name" /\ ~u.sat.ok /\ cur = << << >>, << >> >> /\ u.ps # << >>
       /\ \E s \in {<< >>, << 1 >>, BNOf(100000000), MaxMoney} : u' = [u EXCEPT !.sat = Yes(s)]
       /\ UNCHANGED << mode, cur, text, n >>
Type == mode = "text" /\ n < MaxPieces /\ n' = n + 1
        /\ \E t \in (IF n = 0 THEN Firsts ELSE Tokens) : text' = text \o t
        /\ UNCHANGED << mode, u, cur >>
Next == GrowName \/ GrowValue \/ Put \/ Field \/ Pay \/ Type
Spec == Init /\ [][Next]_vars

Whole == mode = "name" /\ cur = << << >>, << >> >>
Pairs == { u.ps[i] : i \in 1..Len(u.ps) }
ReadsBack == Whole =>
  LET t == Write(u) IN
  /\ Verdict(t) = "valid" /\ AllClear(t)
  /\ UriAddress(t) = Yes(u.addr)
  /\ { p \in Params(t) : p[1] # T_amount } = Pairs
  /\ LET A == { p[2] : p \in { p \in Params(t) : p[1] = T_amount } }
     IN  IF u.sat.ok THEN Cardinality(A) = 1 /\ \A x \in A : IsPlainDecimal(x) /\ IsSatoshis(x, u.sat.v) /\ NearestSatoshis(x) = u.sat.v
         ELSE A = {}
\* The order of the parameters makes no difference
Unordered == Whole =>
  LET v == [u EXCEPT !.ps = TLCEval([i \in 1..Len(u.ps) |-> u.ps[Len(u.ps) + 1 - i]])]
  IN  Params(Write(v)) = Params(Write(u))
SchemeCase == mode = "text" /\ HasScheme(text) =>
  LET t == Upper \o Rest(text)  s == T_bitcoin \o << 58, 47, 47 >> \o Rest(text)
  IN  Verdict(t) = Verdict(text)
      /\ (UriAddress(text).ok /\ Verdict(text) = "valid" /\ Hier(text) = AddressText(text) => Verdict(s) = "valid")
EmitUri == Whole => PrintT("@" \o ToJson([op |-> "made", hasamt |-> u.sat.ok, sat |-> IF u.sat.ok THEN u.sat.v ELSE << >>, ps |-> u.ps]))
EmitText == mode = "text" => PrintT("@" \o ToJson([op |-> "read", t |-> text]))
=============================================================================
