------------------------------- MODULE M_Util -------------------------------
(***************************************************************************)
(* Model for C25: texts made by one helper and damaged on their way to     *)
(* another.  A payload of a WIF or an address is put together, written,    *)
(* and up to MaxHits characters of the text are replaced, dropped or       *)
(* doubled; what is still read is what was written (the form is            *)
(* canonical), and no text is read both as a WIF and as an address.  Bytes *)
(* that look like SEC keys are put together as well.                       *)
(***************************************************************************)
EXTENDS S_Util, Json
CONSTANTS MaxHits
VARIABLES kind, payload, text, hits
vars == << kind, payload, text, hits >>

Secrets == { FixedBE(<< 1 >>, 32), FixedBE(BNSub(SecpN, << 1 >>), 32), Times(127, 32) }
WifPayloads == { << p >> \o s \o c : p \in {128, 239, 0, 111}, s \in Secrets, c \in {<< >>, << 1 >>, << 0 >>, << 1, 1 >>, << 129 >>} }
               \cup { << 128 >> \o Times(7, n) : n \in {0, 1, 20, 30, 31, 34, 64} } \cup { << >> }
AddrPayloads == { << p >> \o Times(h, n) : p \in {0, 5, 111, 196, 128}, h \in {0, 200}, n \in {0, 19, 20, 21} }
SecBodies == { FixedBE(SecpG[1], 32), FixedBE(<< 5 >>, 32), FixedBE(<< 1 >>, 32), FixedBE(SecpP, 32), FixedBE(BNAdd(SecpP, << 1 >>), 32), Times(0, 32), Times(255, 32) }
SecBytes == { << p >> \o x \o y : p \in {0, 2, 3, 4, 5, 6, 7}, x \in SecBodies,
              y \in {<< >>, << 0 >>, FixedBE(SecpG[2], 32), FixedBE(BNSub(SecpP, SecpG[2]), 32), Times(0, 32), Times(0, 31)} }
            \cup { Times(2, n) : n \in 0..5 } \cup { << 4 >> \o Times(0, n) : n \in 60..66 }

Init == /\ hits = 0
        /\ \/ kind = "wif" /\ payload \in WifPayloads /\ text = B58CheckEncode(payload)
           \/ kind = "addr" /\ payload \in AddrPayloads /\ text = B58CheckEncode(payload)
           \/ kind = "sec" /\ payload \in SecBytes /\ text = << >>
Places(t) == {1, 2, Len(t) \div 2, Len(t) - 1, Len(t)} \cap (1..Len(t))
Hit == /\ kind # "sec" /\ hits < MaxHits /\ text # << >>
       /\ hits' = hits + 1
       /\ \E i \in Places(text) :
            \/ \E c \in {49, 50, 122, 48, 32, 233} : text' = [text EXCEPT ![i] = c]
            \/ text' = SubSeq(text, 1, i - 1) \o SubSeq(text, i + 1, Len(text))
            \/ text' = SubSeq(text, 1, i) \o SubSeq(text, i, Len(text))
       /\ UNCHANGED << kind, payload >>
Next == Hit
Spec == Init /\ [][Next]_vars

Canonical ==
  kind # "sec" =>
    LET w == WifForm(text)  a == AddrForm(text) IN
    /\ w.ok => B58CheckEncode(<< w.v.prefix >> \o FixedBE(w.v.secret, 32) \o (IF w.v.compressed THEN << 1 >> ELSE << >>)) = text
    /\ a.ok => B58CheckEncode(<< a.v.prefix >> \o a.v.hash) = text
    /\ ~(w.ok /\ a.ok)
\* The damage is noticed, unless it undid itself
Noticed == kind # "sec" =>
  LET d == B58CheckDecode(text) IN d.ok => text = B58CheckEncode(payload) /\ d.v = payload
SecCanonical == kind = "sec" => LET d == SecDecode(payload) IN d.ok => SecEncode(d.v.P, d.v.compressed) = payload
Emit == PrintT("@" \o ToJson([op |-> kind, t |-> text, b |-> payload]))
=============================================================================
