-------------------------------- MODULE Uri ---------------------------------
(***************************************************************************)
(* Payment URIs (BIP 21):  bitcoin:<address>[?name=value[&name=value]...]  *)
(* Texts are sequences of code points.                                     *)
(***************************************************************************)
EXTENDS Units, Keys, FiniteSets

(* --------------------------------- UTF-8 -------------------------------- *)
Utf8Char(c) ==
  IF c < 128 THEN << c >>
  ELSE IF c < 2048 THEN << 192 + (c \div 64), 128 + (c % 64) >>
  ELSE IF c < 65536 THEN << 224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64) >>
  ELSE << 240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64) >>
\* Has the text an encoding at all? (code points reserved for surrogates have none)
Encodable(t) == \A i \in 1..Len(t) : t[i] \notin 55296..57343
RECURSIVE Utf8_(_, _, _)
Utf8_(t, i, acc) == IF i > Len(t) THEN acc ELSE Utf8_(t, i + 1, acc \o Utf8Char(t[i]))
Utf8(t) == Utf8_(t, 1, << >>)
\* The number of continuation bytes after b, or -1
Utf8Tail(b) == IF b < 128 THEN 0 ELSE IF b \in 194..223 THEN 1 ELSE IF b \in 224..239 THEN 2 ELSE IF b \in 240..244 THEN 3 ELSE -1
RECURSIVE UnUtf8_(_, _, _)
UnUtf8_(b, i, acc) ==
  IF i > Len(b) THEN Yes(acc)
  ELSE LET n == Utf8Tail(b[i]) IN
       IF n = -1 \/ i + n > Len(b) \/ \E j \in 1..n : b[i + j] \notin 128..191 THEN No
       ELSE LET c == CASE n = 0 -> b[i]
                       [] n = 1 -> (b[i] - 192) * 64 + (b[i + 1] - 128)
                       [] n = 2 -> (b[i] - 224) * 4096 + (b[i + 1] - 128) * 64 + (b[i + 2] - 128)
                       [] n = 3 -> (b[i] - 240) * 262144 + (b[i + 1] - 128) * 4096 + (b[i + 2] - 128) * 64 + (b[i + 3] - 128)
            IN  IF Utf8Char(c) # SubSeq(b, i, i + n) \/ c > 1114111 \/ c \in 55296..57343 THEN No
                ELSE UnUtf8_(b, i + n + 1, Append(acc, c))
UnUtf8(b) == UnUtf8_(b, 1, << >>)

(* ---------------------------- percent encoding -------------------------- *)
Unreserved == (48..57) \cup (65..90) \cup (97..122) \cup {45, 46, 95, 126}
UpperHex(n) == IF n < 10 THEN 48 + n ELSE 55 + n
RECURSIVE Quote_(_, _, _)
Quote_(b, i, acc) ==
  IF i > Len(b) THEN acc
  ELSE Quote_(b, i + 1, acc \o (IF b[i] \in Unreserved THEN << b[i] >>
                                ELSE IF b[i] = 32 THEN << 43 >>
                                ELSE << 37, UpperHex(b[i] \div 16), UpperHex(b[i] % 16) >>))
Quote(t) == Quote_(Utf8(t), 1, << >>)

UriHex(c) == CASE c \in 48..57 -> c - 48 [] c \in 65..70 -> c - 55 [] c \in 97..102 -> c - 87 [] OTHER -> 99
\* Bytes that a quoted text stands for; No if a percent sign is not followed by two hex digits
RECURSIVE Unquote_(_, _, _)
Unquote_(t, i, acc) ==
  IF i > Len(t) THEN Yes(acc)
  ELSE IF t[i] = 37
       THEN IF i + 2 <= Len(t) /\ UriHex(t[i + 1]) < 16 /\ UriHex(t[i + 2]) < 16
            THEN Unquote_(t, i + 3, Append(acc, UriHex(t[i + 1]) * 16 + UriHex(t[i + 2])))
            ELSE No
       ELSE Unquote_(t, i + 1, acc \o (IF t[i] = 43 THEN << 32 >> ELSE Utf8Char(t[i])))
Unquote(t) == LET b == Unquote_(t, 1, << >>) IN IF b.ok THEN UnUtf8(b.v) ELSE No

(* -------------------------------- parameters ---------------------------- *)
\* The pieces of t between the separators
RECURSIVE Split_(_, _, _, _, _)
Split_(t, sep, i, cur, acc) ==
  IF i > Len(t) THEN Append(acc, cur)
  ELSE IF t[i] = sep THEN Split_(t, sep, i + 1, << >>, Append(acc, cur))
  ELSE Split_(t, sep, i + 1, Append(cur, t[i]), acc)
Split(t, sep) == Split_(t, sep, 1, << >>, << >>)
\* First position of c in t, or 0
Find(t, c) == LET S == {i \in 1..Len(t) : t[i] = c} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
\* name=value: how sure is its reading?
\*   clear: both parts are well-formed and not empty; otherwise the reading is left open
Piece(p) ==
  LET e == Find(p, 61)
      k == Unquote(IF e = 0 THEN p ELSE SubSeq(p, 1, e - 1))
      v == Unquote(IF e = 0 THEN << >> ELSE SubSeq(p, e + 1, Len(p)))
  IN  [clear |-> e > 1 /\ e < Len(p) /\ k.ok /\ v.ok, hasEq |-> e > 0,
       k |-> IF k.ok THEN k.v ELSE << >>, v |-> IF v.ok THEN v.v ELSE << >>]
Pieces(q) == LET ps == SelectSeq(Split(q, 38), LAMBDA p : p # << >>) IN TLCEval([i \in 1..Len(ps) |-> Piece(ps[i])])

(* ----------------------------------- URIs ------------------------------- *)
T_bitcoin == << 98, 105, 116, 99, 111, 105, 110 >>
T_address == << 97, 100, 100, 114, 101, 115, 115 >>
T_amount  == << 97, 109, 111, 117, 110, 116 >>
T_label   == << 108, 97, 98, 101, 108 >>
T_message == << 109, 101, 115, 115, 97, 103, 101 >>
T_r       == << 114 >>
Lower(t) == TLCEval([i \in 1..Len(t) |-> IF t[i] \in 65..90 THEN t[i] + 32 ELSE t[i]])

\* Texts whose reading is left open: blanks and controls, fragments, surrogates
UriIsOpen(t) == \/ \E i \in 1..Len(t) : t[i] <= 32 \/ t[i] = 35 \/ t[i] = 127
                \/ ~Encodable(t)
HasScheme(t) == Len(t) >= 8 /\ t[8] = 58 /\ Lower(SubSeq(t, 1, 7)) = T_bitcoin
Rest(t) == SubSeq(t, 9, Len(t))
Query(t) == LET q == Find(Rest(t), 63) IN IF q = 0 THEN << >> ELSE SubSeq(Rest(t), q + 1, Len(Rest(t)))
Hier(t) == LET q == Find(Rest(t), 63) IN IF q = 0 THEN Rest(t) ELSE SubSeq(Rest(t), 1, q - 1)
\* bitcoin:address or bitcoin://address
AddressText(t) == LET h == Hier(t) IN IF Len(h) >= 2 /\ h[1] = 47 /\ h[2] = 47 THEN SubSeq(h, 3, Len(h)) ELSE h
UriAddress(t) == ParseAddrText(AddressText(t))

\* Amounts: plain decimals are numbers; these are surely none; anything else is left open
NotNumeric(t) ==
  \/ t = << >>
  \/ \E i \in 1..Len(t) : t[i] \in (65..90) \cup (97..122) /\ t[i] \notin {69, 101}
  \/ Cardinality({i \in 1..Len(t) : t[i] = 46}) > 1
  \/ \A i \in 1..Len(t) : t[i] < 128 /\ ~IsDigit(t[i])
Named(ps, k) == {i \in 1..Len(ps) : ps[i].k = k}

\* What a text is: "valid" (u: what it says), "invalid", or "open"
Verdict(t) ==
  IF UriIsOpen(t) THEN "open"
  ELSE IF ~HasScheme(t) \/ ~UriAddress(t).ok THEN "invalid"
  ELSE LET ps == Pieces(Query(t))
           am == Named(ps, T_amount)
       IN  IF am = {} THEN IF \E i \in 1..Len(ps) : ~ps[i].clear /\ ps[i].k = << >> THEN "open" ELSE "valid"
           ELSE IF Cardinality(am) > 1 THEN "open"
           ELSE LET p == ps[CHOOSE i \in am : TRUE]
                IN  IF p.clear /\ IsPlainDecimal(p.v)
                    THEN IF BNLe(NearestSatoshis(p.v), MaxMoney) THEN "valid" ELSE "open"
                    ELSE IF (p.clear \/ (p.hasEq /\ p.v = << >>)) /\ NotNumeric(p.v) THEN "invalid" ELSE "open"

\* The parameters that a text surely has: name and value, the name used once
Params(t) ==
  LET ps == Pieces(Query(t))
      S == {i \in 1..Len(ps) : ps[i].clear /\ Cardinality(Named(ps, ps[i].k)) = 1}
  IN  { << ps[i].k, ps[i].v >> : i \in S }
AllClear(t) == LET ps == Pieces(Query(t)) IN \A i \in 1..Len(ps) : ps[i].clear /\ Cardinality(Named(ps, ps[i].k)) = 1

\* A way to write a URI: u.addr an address, u.sat satoshis or No, u.ps sequence of name, value
AmountText(s) == Digits(BNDiv(s, Unit_btc)) \o << 46 >> \o DigitsFixed(BNMod(s, Unit_btc), 8)
WritePair(k, v) == Quote(k) \o << 61 >> \o Quote(v)
RECURSIVE Join_(_, _, _)
Join_(ws, i, acc) == IF i > Len(ws) THEN acc ELSE Join_(ws, i + 1, IF i = 1 THEN ws[1] ELSE acc \o << 38 >> \o ws[i])
Write(u) ==
  LET ws == (IF u.sat.ok THEN << WritePair(T_amount, AmountText(u.sat.v)) >> ELSE << >>)
            \o TLCEval([i \in 1..Len(u.ps) |-> WritePair(u.ps[i][1], u.ps[i][2])])
  IN  T_bitcoin \o << 58 >> \o AddrText(u.addr) \o (IF ws = << >> THEN << >> ELSE << 63 >> \o Join_(ws, 1, << >>))
=============================================================================
